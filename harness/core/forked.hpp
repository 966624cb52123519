// Runs f in a child process and reports how it ended and what it printed.
#pragma once
#include "capture.hpp"
#include <sys/wait.h>

struct Ended
{
    bool exited;
    int status; // exit status or signal
    std::string out, err;
};

template<typename F>
Ended forked(F f)
{
    Capture o(1), e(2);
    pid_t p = fork();
    if (p == 0)
    {
        try
        {
            f();
        }
        catch (...)
        {
            _exit(78);
        }
        std::cout.flush();
        std::fflush(nullptr);
        _exit(77);
    }
    int st = 0;
    waitpid(p, &st, 0);
    Ended r;
    r.exited = WIFEXITED(st);
    r.status = r.exited ? WEXITSTATUS(st) : WTERMSIG(st);
    r.err = e.stop();
    r.out = o.stop();
    return r;
}
// the child came back from f: the failure was not fatal
constexpr int RETURNED = 77;
constexpr int THREW = 78;
