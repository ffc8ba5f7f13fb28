#include "quiet.hpp"
#include <string>
#include "Optimizers/INCLUDE/optimization_logger.hpp"
#include "Driver/INCLUDE/driver_logger.hpp"
void quietDriver(){ Rodop::DriverLogger::getInstance().setLogLevel(Rodop::CRITICAL); }
