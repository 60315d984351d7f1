// Files held in memory, reached through /proc/self/fd.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <string>
struct MemFile {
    int fd; explicit MemFile(const std::string& bytes) { fd = memfd_create("mnist", MFD_CLOEXEC); if (fd < 0 || write(fd, bytes.data(), bytes.size()) != (ssize_t)bytes.size()) _exit(2); }
    ~MemFile() { close(fd); } std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
};
inline std::string be(uint32_t v) { return std::string{(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; }
