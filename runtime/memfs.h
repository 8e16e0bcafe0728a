// In-memory file system behind the C library's file functions, with symbolic contents, injected faults and crash snapshots.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vsfs_create(const char* path, const void* data, size_t size);  // data may hold symbolic bytes
int vsfs_exists(const char* path);
int64_t vsfs_size(const char* path);                                // -1 if absent
uint8_t* vsfs_data(const char* path);
void vsfs_mkdir(const char* path);
void vsfs_symlink(const char* path, const char* target);
void vsfs_truncate(const char* path, size_t size);
// faults: the op-th (from 0) operation after arming that belongs to `mask` fails
enum { VF_WRITE = 1, VF_FLUSH = 2, VF_CLOSE = 4, VF_SEEK = 8, VF_TRUNC = 16, VF_OPEN = 32, VF_READ = 64, VF_RENAME = 128, VF_TELL = 256, VF_REMOVE = 512, VF_ALL = 1023 };
void vsfs_arm_fault(unsigned mask, unsigned op, size_t partial, int persistent, int deferred);
void vsfs_disarm_fault();
int vsfs_fault_fired();
unsigned vsfs_fault_ops();                                          // operations counted since arming
// crash: a snapshot is taken at the op-th mutation after arming; `partial` bytes of that write land
void vsfs_arm_crash(unsigned op, size_t partial);
int vsfs_crashed();
unsigned vsfs_mutations();
void vsfs_restore_crash();                                          // replace the file system by the snapshot
void vsfs_set_capacity(uint64_t bytes);                             // disk full beyond this many bytes
int vsfs_open_handles();
int vsfs_max_open(int n);
void vsfs_aio_submit_fault(int on);                                  // the next asynchronous write is refused
}
