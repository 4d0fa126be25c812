// Runs nxas::assemble on many texts in one process.
// input file: repeated [u32 length][bytes]; output file: repeated
// [u8 status][u32 n words][words][u32 n stderr][bytes]
// status: 0 returned, 1 exit(1), 2 exit(other), 3 abort/signal (recorded by the parent), 4 exception
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "nxas.h"

static jmp_buf env;
static int exit_status;
static bool armed;

extern "C" [[noreturn]] void __real_exit(int);
extern "C" [[noreturn]] void __wrap_exit(int status)
{
    if (!armed) {
        __real_exit(status);
    }
    exit_status = status;
    longjmp(env, 1);
}

static void put(FILE* f, const void* p, size_t n)
{
    if (fwrite(p, 1, n, f) != n) {
        _exit(99);
    }
}

static void put32(FILE* f, uint32_t v)
{
    put(f, &v, 4);
}

static std::vector<uint64_t> words;

static int run_one(const std::string& text)
{
    words.clear();
    if (setjmp(env)) {
        armed = false;
        return exit_status == 1 ? 1 : 2;
    }
    armed = true;
    try {
        words = nxas::assemble(text, "input.sass");
    } catch (...) {
        armed = false;
        return 4;
    }
    armed = false;
    return 0;
}

int main(int, char** argv)
{
    FILE* in = fopen(argv[1], "rb");
    std::vector<std::string> texts;
    uint32_t n;
    while (fread(&n, 4, 1, in) == 1) {
        std::string s(n, '\0');
        if (n && fread(s.data(), 1, n, in) != n) {
            return 98;
        }
        texts.push_back(std::move(s));
    }
    fclose(in);
    size_t* progress = static_cast<size_t*>(
        mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *progress = 0;
    const int err = memfd_create("err", 0);
    while (*progress < texts.size()) {
        const pid_t pid = fork();
        if (pid == 0) {
            FILE* out = fopen(argv[2], "ab");
            dup2(err, 2);
            while (*progress < texts.size()) {
                if (ftruncate(err, 0)) {
                    _exit(97);
                }
                lseek(err, 0, SEEK_SET);
                alarm(20);
                const int status = run_one(texts[*progress]);
                alarm(0);
                fflush(stderr);
                const uint8_t b = status;
                put(out, &b, 1);
                put32(out, words.size());
                if (!words.empty()) put(out, words.data(), words.size() * 8);
                std::string e(lseek(err, 0, SEEK_END), '\0');
                pread(err, e.data(), e.size(), 0);
                put32(out, e.size());
                if (!e.empty()) put(out, e.data(), e.size());
                fflush(out);
                ++*progress;
            }
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (*progress < texts.size()) {
            FILE* out = fopen(argv[2], "ab");
            const uint8_t b = 3;
            put(out, &b, 1);
            put32(out, 0);
            std::string e(lseek(err, 0, SEEK_END), '\0');
            pread(err, e.data(), e.size(), 0);
            if (e.size() > 3000) {
                e.resize(3000);
            }
            put32(out, e.size());
            if (!e.empty()) put(out, e.data(), e.size());
            fclose(out);
            ++*progress;
        }
    }
    return 0;
}
