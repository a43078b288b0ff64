#include "util/util.h"
#include "timer.h"
void* timer_new(const std::string& name) { return new Timer(name); }
void timer_stop(void* t) { ((Timer*)t)->stop(); }
void timer_free(void* t) { delete (Timer*)t; }
