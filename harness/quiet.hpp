// The loggers of the components cannot be included together: one translation unit each.
#pragma once
void quietModel(); void quietObjective(); void quietDriver();
