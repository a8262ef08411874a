// mechanical amalgamation of the translation units under contract (no code of its own)
#include "icl_core/TimeBase.cpp"
#include "icl_core/TimeSpan.cpp"
#include "icl_core_logging/Logging.cpp"
