// What the code under test writes to stdout or stderr, whatever channel it uses.
#pragma once
#include <cstdio>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>

struct Capture
{
    explicit Capture(int fd_) : fd(fd_)
    {
        std::cout.flush();
        std::cerr.flush();
        std::fflush(nullptr);
        saved = dup(fd);
        mem = memfd_create("cap", 0);
        dup2(mem, fd);
    }

    std::string stop()
    {
        if (saved < 0) return {};
        std::cout.flush();
        std::cerr.flush();
        std::fflush(nullptr);
        dup2(saved, fd);
        close(saved);
        saved = -1;
        std::string r;
        lseek(mem, 0, SEEK_SET);
        char b[4096];
        ssize_t n;
        while ((n = read(mem, b, sizeof b)) > 0) r.append(b, size_t(n));
        close(mem);
        return r;
    }

    ~Capture() { stop(); }

    int fd, saved, mem;
};
