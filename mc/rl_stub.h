// the command client is compiled without a terminal
#pragma once
#define _READLINE_H_
#define _HISTORY_H_
inline char* readline(const char*) { return nullptr; }
inline void add_history(const char*) {}
inline int rl_complete(int, int) { return 0; }
inline int rl_bind_key(int, int (*)(int, int)) { return 0; }
