// Instantiations only: gives the front end the bodies of header templates.  No behaviour of its own.
#include <string>

#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/identity.hh"
#include "emissions/sometimes.hh"
void instantiate() {
  new IdentityEmission<std::string>();
  new IdentityEmission<int>();
  new IdentityEmission<bool>();
  new Sometimes<bool>(nullptr);
  new Sometimes<int>(nullptr);
  new Sometimes<double>(nullptr);
  new Sometimes<std::string>(nullptr);
}
