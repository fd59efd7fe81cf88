// Instantiations only: gives the front end the bodies of header templates and inline classes.  No behaviour of its own.
#include <string>

#include "distributions/adapter.hh"
#include "distributions/nonconjugate.hh"
#include "distributions/string_nat.hh"
void instantiate() {
  new StringNat();
  new DistributionAdapter<int>(nullptr);
  new DistributionAdapter<double>(nullptr);
}
