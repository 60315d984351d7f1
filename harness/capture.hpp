// Captures everything the process writes to file descriptor 1, whichever library call wrote it.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <iostream>
#include <string>
struct Capture {
    int saved = -1; bool done = false; std::string text;
    static int mem() { static int fd = -1; static pid_t owner = 0; if (owner != getpid()) { fd = memfd_create("pbt-out", MFD_CLOEXEC); owner = getpid(); } return fd; }
    Capture() { std::cout.flush(); fflush(stdout); int fd = mem(); if (fd < 0) { perror("memfd_create"); _exit(2); } if (ftruncate(fd, 0)) _exit(2); lseek(fd, 0, SEEK_SET); saved = dup(1); if (saved < 0 || dup2(fd, 1) < 0) _exit(2); }
    const std::string& finish() {
        if (done) return text; done = true; std::cout.flush(); fflush(stdout); dup2(saved, 1); close(saved);
        int fd = mem(); off_t n = lseek(fd, 0, SEEK_END); text.resize((size_t)n); if (n && pread(fd, &text[0], (size_t)n, 0) != n) _exit(2); return text;
    }
    ~Capture() { finish(); }
};
