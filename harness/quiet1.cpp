#include "quiet.hpp"
#include "SurrogateModels/INCLUDE/model_logger.hpp"
void quietModel(){ Rodop::ModelLogger::getInstance().setLogLevel(Rodop::CRITICAL); }
