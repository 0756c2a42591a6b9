// A disk for sqlite: an in-memory VFS that knows which writes are durable.
#pragma once
#include "core.h"
namespace sim { namespace sqldisk {
void install();                            // once per run, before any sqlite call
void crash_image(bool power);                        // unsynced writes are kept, lost or torn; open handles become stale
size_t size(const std::string &path);
extern std::function<void(const char *op)> op_hook;  // before every operation
extern uint64_t ops;
} }
