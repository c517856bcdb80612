// Simulated disk and clock: the C library's file and time functions as the
// C++ runtime (and the library) call them, served from memory while active.
#pragma once
#include "core.hpp"

namespace sim {
namespace os {
enum { FI_OPEN, FI_SPACE, FI_EIO, FI_SHORT, FI_EINTR, FI_CLOSE, FI_JUMP, FI_NK };
struct File {
  char name[96];
  char* data;  // grown with realloc, never with operator new
  std::size_t n, cap;
  bool exists;
  u64 opened;
};
struct Disk {
  int open_errno = 0;    // opening fails with this
  int open_left = 0;     // that many times (-1: always)
  i64 space = -1;        // bytes that can still be written (-1: unlimited)
  int eio = 0;           // writes that fail with EIO (-1: all)
  int eintr = 0;         // interrupted writes still to come
  int shrt = 0;          // short writes still to come (-1: all)
  int close_errno = 0;   // closing fails with this
  u64 rnd = 1;
  u64 fired[FI_NK] = {};
  u64 writes = 0, opens = 0, bytes = 0;
};
extern Disk disk;
extern bool active;
void reset();
File* file(const char* name);  // nullptr: was never there
int nfiles();
File* file_at(int i);
// called before a change of a file: [keep] bytes of it survive
extern void (*on_change)(File& f, std::size_t keep);

struct Clock {
  i64 now = 0;        // seconds
  i64 nsec = 0;
  // increments applied after successive readings, cyclic
  i64 step[8] = {};
  u32 nstep = 0, pos = 0;
  u64 reads = 0;
  i64 seen[32];  // readings since mark()
  u32 nseen = 0;
};
extern Clock clk;
extern void (*on_clock)(i64 t);  // a thread has read the clock
extern void (*on_io)();         // before a file is opened or written
void clock_mark();
}  // namespace os
}  // namespace sim
