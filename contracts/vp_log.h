/* Logging sink.  @assume mdb()/vmdb() only write the log: no effect on program state */
#pragma once
void mdb(int level, const char *message) { (void)level; (void)message; }
void vmdb(int level, const char *fmt, ...) { (void)level; (void)fmt; }
