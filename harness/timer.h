#pragma once
#include <string>
void* timer_new(const std::string& name);
void timer_stop(void*);
void timer_free(void*);
