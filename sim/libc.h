#pragma once
struct Proc;
void libcStart(Proc &p);
void libcSwitch(Proc &p);
void libcFinish(Proc &p);
[[noreturn]] void simExit(int code);
