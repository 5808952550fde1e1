// Fault injection into the file operations of the library: while armed, every
// call that can fail for lack of space or descriptors is counted, and the k-th
// fails (or ends the process).
#pragma once
namespace mc {
enum { FIO_COUNT, FIO_ONCE, FIO_ON, FIO_KILL }; // count only; k-th fails; k-th and all later fail; process ends at the k-th
struct Fio {
    bool armed = false;
    bool stdio = false; // include fopen/fread/fwrite/fclose, read, write
    bool reads = false; // include pread
    bool writes = true; // include pwrite
    int mode = FIO_COUNT, k = 0, n = 0;
    int fired = 0;
    const char* call = ""; // the call that failed first
    void arm(int m, int kth)
    {
        mode = m;
        k = kth;
        n = fired = 0;
        call = "";
        armed = true;
    }
    void disarm() { armed = false; }
};
extern Fio fio;
}
