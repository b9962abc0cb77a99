// Gives up root in a scenario's child process: the code under test may have
// lost its way around the file system, so it gets to reach nothing but its own
// scratch directory.
#pragma once
#include <filesystem>
#include <grp.h>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
inline void unprivileged(const std::string& dir)
{
    constexpr uid_t nobody = 65534;
    if (geteuid() != 0) return;
    if (chown(dir.c_str(), nobody, nobody)) throw std::runtime_error("chown");
    std::error_code ec;
    for (auto& e : std::filesystem::recursive_directory_iterator(dir, ec))
        if (lchown(e.path().c_str(), nobody, nobody)) throw std::runtime_error("lchown");
    if (setgroups(0, nullptr) || setgid(nobody) || setuid(nobody)) throw std::runtime_error("setuid");
}
