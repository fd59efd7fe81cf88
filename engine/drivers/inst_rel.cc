// Instantiations only: gives the front end the bodies of header templates.  No behaviour of its own.
#include <string>

#include "clean_relation.hh"
#include "noisy_relation.hh"
#include "transition_latent_value.hh"
template <typename T>
void use() {
  auto c = new CleanRelation<T>("", DistributionSpec(""), {});
  c->logp_gibbs_approx(*c->domains[0], 0, 0, nullptr);
}
template <typename T>
void usen() {
  auto n = new NoisyRelation<T>("", EmissionSpec(""), {}, nullptr);
  n->logp_gibbs_approx(*n->domains[0], 0, 0, nullptr);
  transition_latent_value<T>(nullptr, {}, nullptr, {});
}
void instantiate() {
  use<bool>();
  use<int>();
  use<double>();
  use<std::string>();
  usen<double>();
  usen<std::string>();
}
