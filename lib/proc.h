// Runs a command-line program with files for its standard streams.
#pragma once
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <chrono>
#include <string>
#include <thread>
#include <vector>
#include "pbt.h"
extern char** environ;

namespace proc {

// A private scratch directory per worker process, removed at exit of the process tree's owner.
inline std::string scratch() {
    static std::string d;
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        const char* base = getenv("VERIF_SCRATCH");
        d = std::string(base ? base : "/tmp") + "/w" + std::to_string(getpid());
        mkdir(d.c_str(), 0700);
    }
    return d;
}

// Creates the scratch directory the workers use and removes it in the destructor.
struct ScratchRoot {
    std::string dir;
    pid_t owner;
    ScratchRoot() : owner(getpid()) {
        char t[] = "/tmp/verif-XXXXXX";
        dir = mkdtemp(t);
        setenv("VERIF_SCRATCH", dir.c_str(), 1);
    }
    ~ScratchRoot() {
        if (getpid() != owner || dir.rfind("/tmp/verif-", 0) != 0) return;
        std::string cmd = "rm -rf " + dir;
        if (system(cmd.c_str())) {}
    }
};

inline void write_file(const std::string& p, const std::string& s) {
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) return;
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}

struct Result {
    int status = 0;          // wait status
    bool timeout = false;
    std::string out, err;
    bool exited() const { return !timeout && WIFEXITED(status); }
    int code() const { return exited() ? WEXITSTATUS(status) : -1; }
    // ended by a signal, by the sanitizer or by abort
    bool crashed() const { return !timeout && (WIFSIGNALED(status) || code() == 88); }
    std::string how() const {
        if (timeout) return "did not end";
        if (WIFSIGNALED(status)) return "killed by signal " + std::to_string(WTERMSIG(status));
        if (code() == 88) return "memory error";
        return "exit status " + std::to_string(code());
    }
};

class Child {
public:
    pid_t pid = -1;
    std::string outp, errp;
    Child(const std::vector<std::string>& argv, const std::string& input, const std::vector<std::string>& env = {}) {
        std::string d = scratch();
        std::string inp = d + "/in";
        outp = d + "/out";
        errp = d + "/err";
        write_file(inp, input);
        posix_spawn_file_actions_t fa;
        posix_spawn_file_actions_init(&fa);
        posix_spawn_file_actions_addopen(&fa, 0, inp.c_str(), O_RDONLY, 0);
        posix_spawn_file_actions_addopen(&fa, 1, outp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        posix_spawn_file_actions_addopen(&fa, 2, errp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        std::vector<char*> av, ev;
        for (auto& a : argv) av.push_back(const_cast<char*>(a.c_str()));
        av.push_back(nullptr);
        for (char** e = environ; *e; ++e) ev.push_back(*e);
        for (auto& e : env) ev.push_back(const_cast<char*>(e.c_str()));
        ev.push_back(nullptr);
        if (posix_spawn(&pid, av[0], &fa, nullptr, av.data(), ev.data()) != 0) pid = -1;
        posix_spawn_file_actions_destroy(&fa);
    }
    ~Child() {
        if (pid > 0) {
            kill(pid, SIGKILL);
            waitpid(pid, nullptr, 0);
        }
    }
    bool running() {
        if (pid <= 0) return false;
        int st;
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) {
            res.status = st;
            pid = -1;
            return false;
        }
        return true;
    }
    Result wait(double secs) {
        auto t0 = std::chrono::steady_clock::now();
        unsigned us = 300;
        while (running()) {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) {
                kill(pid, SIGKILL);
                waitpid(pid, &res.status, 0);
                pid = -1;
                res.timeout = true;
                break;
            }
            usleep(us);
            if (us < 5000) us += us / 3;
        }
        res.out = pbt::read_file(outp);
        res.err = pbt::read_file(errp);
        return res;
    }
private:
    Result res;
};

inline Result run(const std::vector<std::string>& argv, const std::string& input, double secs, const std::vector<std::string>& env = {}) {
    Child c(argv, input, env);
    return c.wait(secs);
}

}  // namespace proc
