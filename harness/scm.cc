// Scheme, with scribbu's extension linked in: evaluates one expression per
// line, answering each with a line of JSON (see serve.scm).
#include <clocale>
#include <cstdlib>
#include <libguile.h>
#include <scribbu/scribbu.hh>

extern "C" void init_scribbu();

static void extension(void*) { init_scribbu(); }

static void inner(void*, int argc, char **argv) {
  // what (load-extension "libscribbu" "init_scribbu") will find
  scm_c_register_extension("libscribbu", "init_scribbu", extension, 0);
  scm_c_primitive_load(getenv("VERIF_SERVE"));
}

int main(int argc, char **argv) {
  std::setlocale(LC_ALL, "");
  scribbu::static_initialize();
  scm_boot_guile(argc, argv, inner, 0);
  return 0;
}
