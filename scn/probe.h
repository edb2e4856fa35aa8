// Bookkeeping of parallel calls, compiled without instrumentation.
#pragma once
#include "rt.h"
namespace probe {
void reset();
// a parallel call is about to be made by the current thread; returns its id
int call_begin(bool block, int begin, int end, int nthreads);
void enter(int call, int begin, int end, int k, int nthr);   // a share starts (for blocks begin/end ignored)
void leave(int call);                                        // it ends (normally or by throwing)
void call_end(int call);                                     // the call returned normally
void call_failed(int call);                                  // the call threw
int entered(int call);
bool is_caller(int call);                                    // is the current thread the one that made the call
}
