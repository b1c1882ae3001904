// Validation rules of binary requests, per opcode (shared by the parser checks and the whole-server checks).
#pragma once
// rules: extras length (a | b), key: 0 none 1 required 2 optional, value: 0 none 1 required; kind of extras
struct Rule { int op; int exa, exb; int key, val; int kind; };
enum { K_NONE, K_EXP, K_SET, K_ARITH, K_FLUSH, K_STAT, K_FREE };
static const Rule RULES[] = {
  {0x00, 0, 4, 1, 0, K_EXP}, {0x01, 8, 8, 1, 1, K_SET}, {0x02, 8, 8, 1, 1, K_SET}, {0x03, 8, 8, 1, 1, K_SET}, {0x04, 0, 0, 1, 0, K_NONE}, {0x05, 20, 20, 1, 0, K_ARITH}, {0x06, 20, 20, 1, 0, K_ARITH},
  {0x07, -1, -1, 2, 2, K_FREE}, {0x08, 0, 4, 0, 0, K_FLUSH}, {0x09, 0, 4, 1, 0, K_EXP}, {0x0a, -1, -1, 2, 2, K_FREE}, {0x0b, -1, -1, 2, 2, K_FREE}, {0x0c, 0, 4, 1, 0, K_EXP}, {0x0d, 0, 4, 1, 0, K_EXP},
  {0x0e, 0, 0, 1, 1, K_NONE}, {0x0f, 0, 0, 1, 1, K_NONE}, {0x10, 0, 0, 2, 0, K_STAT}, {0x11, 8, 8, 1, 1, K_SET}, {0x12, 8, 8, 1, 1, K_SET}, {0x13, 8, 8, 1, 1, K_SET}, {0x14, 0, 0, 1, 0, K_NONE},
  {0x15, 20, 20, 1, 0, K_ARITH}, {0x16, 20, 20, 1, 0, K_ARITH}, {0x17, -1, -1, 2, 2, K_FREE}, {0x18, 0, 4, 0, 0, K_FLUSH}, {0x19, 0, 0, 1, 1, K_NONE}, {0x1a, 0, 0, 1, 1, K_NONE}, {0x1c, 4, 4, 1, 0, K_EXP},
  {0x1d, 0, 4, 1, 0, K_EXP}, {0x1e, 0, 4, 1, 0, K_EXP}, {0x23, 0, 4, 1, 0, K_EXP}, {0x24, 0, 4, 1, 0, K_EXP},
  {0x40, 0, 0, 1, 0, K_NONE}, {0x41, 0, 0, 1, 0, K_NONE}, {0x42, 0, 0, 1, 0, K_NONE}, {0x43, 0, 0, 1, 0, K_NONE}, {0x44, -1, -1, 2, 2, K_FREE}, {0x45, -1, -1, 2, 2, K_FREE},
  {0x46, 0, 4, 1, 0, K_EXP}, {0x47, 0, 4, 1, 0, K_EXP}, {0x48, 0, 4, 1, 0, K_EXP}, {0x49, 0, 4, 1, 0, K_EXP}, {0x4a, 8, 8, 1, 1, K_SET}, {0x4b, 8, 8, 1, 1, K_SET}, {0x50, 0, 0, 2, 0, K_NONE} };
static const unsigned char QUIET[] = {0x09, 0x0d, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1e, 0x24, 0x41, 0x43, 0x45, 0x47, 0x49, 0x4b};
static bool is_quiet(int op) { for (unsigned char q : QUIET) if (q == op) return true; return false; }

