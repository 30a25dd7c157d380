#include "env.hpp"
#include <cstdlib>
#include <openssl/err.h>
static void reset() {
  env::rng_reseed(1);
  ERR_clear_error();
}
int main(int argc, char **argv) {
  env::sys_init();
  pbt::set_global_init(env::init);
  pbt::set_case_reset(reset);
  pbt::set_case_begin(env::begin);
  return pbt::main_(argc, argv);
}
