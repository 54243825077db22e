#include "engine.hpp"
#include <sys/personality.h>
int main(int argc, char ** argv) {
    // The same addresses in every run, so that a failure that depends on them replays.
    int old = personality(0xffffffff);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && !getenv("PBT_NO_REEXEC")) {
        if (personality(unsigned(old) | ADDR_NO_RANDOMIZE) != -1) {
            setenv("PBT_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    return ::pbt::pbt_main(argc, argv);
}
