// The far-field post-processor's command-line program.
// also: components/RCSSurfacePostProcessor.cpp driver/rcs_driver.cpp
#ifndef NDEBUG
#define NDEBUG
#endif
#include "launcher/rcs_launcher.cpp"
