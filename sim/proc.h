// Simulated command line programs: each runs its real main() in a fiber, with files of its own.
#pragma once
#include "sys.h"
#include <string>
#include <vector>
#include <cstdio>
namespace sim { namespace proc {
struct P { std::string name; std::vector<std::string> args; int rc = -1; bool done = false, killed = false; int die_at = -1, calls = 0; std::vector<FILE *> files; std::vector<int> fds; Fiber *f = nullptr; };
P *cur();                                                                   // the program that runs now, or nullptr
P *start(int (*main)(int, char **), const std::vector<std::string> &args, int die_at = -1); // die_at: killed at that system call
void syscall_point();                                                       // one more system call of this program
[[noreturn]] void end(int rc);
}}
