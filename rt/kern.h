// Control of the kernel model (rt/posix.cpp) from harnesses.
#pragma once
#include <cstdint>
struct pollfd;
enum { KERN_BUF = 96 };
enum { KF_OPEN, KF_READ, KF_WRITE, KF_EINTR, KF_BIND, KF_ACCEPT, KF_N };
struct kern_events_t {
  int capacity = 64;                 // bytes a pipe or socket direction holds
  int faults[KF_N] = {0, 0, 0, 0, 0, 0};  // how many calls of a kind may fail
  int readErr = 4, writeErr = 4;     // with which errno (EINTR)
  int shortIO = 0;                   // how many transfers may be short
  int connectMode = 0;               // 1: connect may complete later or be refused
  int64_t steadyEpochNs = 1000000000, systemEpochNs = 1600000000000000000;
  void (*onPoll)(pollfd*, unsigned long, int) = nullptr;
  int acceptErr = 103;               // ECONNABORTED
  int polls = 0, badClose = 0, sigpipe = 0, connects = 0;
};
extern "C" {
kern_events_t* kern();
int64_t kern_now();                  // virtual milliseconds
void kern_set_now(int64_t t);
void kern_at(int64_t ms, void (*fn)(void*), void* arg);  // run when time reaches ms
int kern_open_fds();
void kern_first_fd(int fd);          // the lowest descriptor given out, set before any is
int kern_pipe_bytes(int fd);
int kern_flags(int fd);
int kern_desc(int fd);               // identity of the open file description
int kern_opt(int fd, int level, int name, void* v);  // length of an option that was set, or -1
int kern_file_mode(const char* path);
int kern_file_size(const char* path);
const char* kern_file_data(const char* path);
void kern_file(const char* path, const char* data, int n);
void kern_socketpair(int* out);
}
