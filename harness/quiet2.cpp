#include "quiet.hpp"
#include "ObjectiveFunctions/INCLUDE/objective_function_logger.hpp"
void quietObjective(){ Rodop::ObjectiveFunctionLogger::getInstance().setLogLevel(Rodop::CRITICAL); }
