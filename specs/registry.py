"""Which specification modules, harness and sources decide each property."""

DISTS = ["distributions/%s.cc" % x for x in ("beta_bernoulli", "bigram", "crp", "dirichlet_categorical", "get_distribution", "normal", "skellam", "stringcat", "zero_mean_normal")]
EMIS = ["emissions/%s.cc" % x for x in ("bigram_string", "get_emission", "string_alignment")]
REL = DISTS + EMIS + ["relation.cc", "util_math.cc", "util_parse.cc"]

HARNESS = {
    "h_model": REL + ["irm.cc", "hirm.cc", "util_io.cc"],
    "h_parse": REL + ["irm.cc", "hirm.cc", "util_io.cc", "pclean/csv.cc"],
    "h_emis": REL,
    "h_gendb": REL + ["irm.cc", "hirm.cc", "util_io.cc", "gendb.cc", "pclean/csv.cc", "pclean/io.cc", "pclean/get_joint_relations.cc", "pclean/pclean_lib.cc"],
    "h_rel": REL,
    "h_comp": ["distributions/%s.cc" % x for x in ("beta_bernoulli", "bigram", "dirichlet_categorical", "normal", "skellam", "stringcat", "zero_mean_normal")] + ["emissions/string_alignment.cc", "util_math.cc"],
    "h_dist": ["distributions/crp.cc", "util_math.cc"],
}

# functions whose calls a harness observes at link time (-Wl,--wrap)
WRAP = {"h_model": ["_Z10log_choiceRKSt6vectorIdSaIdEEPSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EE"]}

REL_ASSUME = ["every relation obeys the interface contract of specs/absrel.py (its functions are discharged for CleanRelation in specs/clean.py and for NoisyRelation in specs/noisy.py)", "on entry the model's maps agree: distinct relation and domain objects, relations listed under each of their domains"]

PROPS = {
    "C01": dict(mods=["crp", "domain"], harness=[("h_dist", "C01")],
        note="Every obligation of CRP's and Domain's contracts is discharged from the current source for all inputs; machine integers/doubles are mathematical, std containers are modelled."),
    "C02": dict(mods=["crp"], harness=[("h_dist", "C02")],
        note="Weights, chain rule and reseating weights are discharged over real arithmetic; ln/lgamma are uninterpreted with listed identities."),
    "C03": dict(mods=["dist"], harness=[("h_comp", "C03")],
        bounded=["Bigram::incorporate", "StringCat::incorporate", "NonconjugateDistribution::incorporate", "DistributionAdapter"],
        note="Discharged over real arithmetic for the coin, categorical and both Gaussian models; n-gram, fixed-list string, Skellam and adapters are covered by the bounded stand-in only."),
    "C04": dict(mods=["dist"], harness=[("h_comp", "C04")],
        bounded=["Bigram::logp", "StringCat::logp", "Skellam::logp", "DistributionAdapter::logp"],
        note="logp = change of logp_score is discharged over real arithmetic (ln/lgamma identities) for the coin, categorical and both Gaussian models; the other models by the bounded stand-in only."),
    "C05": dict(mods=["dist"], harness=[("h_comp", "C05")], budget=8,
        bounded=["Bigram::sample", "StringCat::sample", "Skellam::sample"],
        assumptions=["the normal-inverse-gamma mixture of Gaussians is the Student-t; the Student-t density integrates to one"],
        note="Normalisation, drawing weights and draw parameters are discharged over real arithmetic for the coin, categorical and Gaussian models; ZeroMeanNormal::sample's scale is a recorded finding."),
    "C06": dict(mods=["dist", "crp", "util_math"], harness=[("h_comp", "C06"), ("h_dist", "C06crp")], budget=10,
        bounded=["Bigram::transition_hyperparameters", "StringCat::transition_hyperparameters", "Skellam::transition_hyperparameters", "NonconjugateDistribution::transition_theta"],
        note="For the coin, categorical and Gaussian models and for every number of grid points: each candidate's weight is logp_score under it, and the move ends in the drawn candidate."),
    "C07": dict(mods=["util_math"], harness=[("h_dist", "C07")],
        note="Discharged over real arithmetic with exp/ln identities; floating-point rounding is outside the proof and covered only by the bounded stand-in."),
    "C08": dict(mods=["clean", "domain"], harness=[("h_rel", "C08")], bounded=["CleanRelation::cleanup_clusters", "CleanRelation::logp", "CleanRelation::transition_cluster_hparams", "CleanRelation::make_new_distribution"], budget=8,
        assumptions=["make_new_distribution returns a new object without data (std::visit over the prior specification is outside the verifier)", "distributions obey the interface laws of specs/absdist.py (proved for the implementations under C03/C04)", "vector and string keys are compared by length and elements"],
        note="Every public operation on observations of CleanRelation<bool/int/double/string> is discharged for all domain lists, tuples and histories against Domain's and Distribution's contracts."),
    "C09": dict(mods=["clean", "domain"], harness=[("h_rel", "C09")], bounded=["CleanRelation::make_new_distribution"], budget=8,
        assumptions=["make_new_distribution returns a new object without data (std::visit over the prior specification is outside the verifier)", "distributions obey the interface laws of specs/absdist.py (proved for the implementations under C03/C04)", "vector and string keys are compared by length and elements"],
        note="Block contents after moving all of the entity's observations are those of the new grouping (loop invariant over any number of observations); grouping lemma and agreement with the domain's own update are discharged."),
    "C10": dict(mods=["clean", "noisy"], harness=[("h_rel", "C10")], bounded=["CleanRelation::make_new_distribution"], budget=8,
        assumptions=["make_new_distribution returns a new object without data (std::visit over the prior specification is outside the verifier)", "distributions obey the interface laws of specs/absdist.py (proved for the implementations under C03/C04)", "vector and string keys are compared by length and elements"],
        note="All Gibbs scoring functions of CleanRelation<bool/int/double/string> are discharged: value as a sum over the entity's observations (or blocks) and nothing changed; the noisy relations hand the question to their error model's relation. Two recorded findings."),
    "C11": dict(mods=["noisy", "clean"], harness=[("h_rel", "C11")], bounded=["CleanRelation::make_new_distribution"], budget=8,
        assumptions=["make_new_distribution returns a new object without data (std::visit over the prior specification is outside the verifier)", "the base relation's get_value/get_data/get_domains report one stored record (proved for CleanRelation and NoisyRelation themselves)", "distributions obey the interface laws of specs/absdist.py (proved for the implementations under C03/C04)", "vector and string keys are compared by length and elements"],
        note="Every public operation of NoisyRelation<double/string> keeps the pairing, its own record and the lookup, for all tuples and histories, against the contracts of the error model's relation (CleanRelation<pair>, discharged in specs/clean.py) and of the base relation."),
    "C12": dict(mods=["tlv", "noisy", "clean"], harness=[("h_rel", "C12")], bounded=["CleanRelation::nearest", "IRM::transition_latent_values_relation"], budget=8,
        assumptions=["a relation's blocks are known through what they absorb (rin/ncl of specs/absrel.py and specs/tlv.py; the one-step operations on them are discharged for CleanRelation and NoisyRelation)", "the base relation is an object other than its noisy relations", "distributions obey the interface laws of specs/absdist.py (proved for the implementations under C03/C04)", "vector and string keys are compared by length and elements"],
        note="All five functions of the move are discharged for any number of noisy relations, dirty values, blocks and candidates: weights, the drawn candidate, restored blocks and records, nothing else changed (value types double and string)."),
    "C13": dict(mods=["irm", "clean", "domain"], harness=[("h_model", "C13")], bounded=["IRM constructors", "IRM::add_relation", "IRM::remove_relation", "IRM::single_step_irm_inference"], budget=12,
        assumptions=REL_ASSUME,
        note="IRM::incorporate, unincorporate, has_observation and logp_score are discharged over any number of relations and domains against the interface contract of relations (specs/absrel.py); the other methods by the bounded stand-in."),
    "C14": dict(mods=["irm", "clean", "domain"], harness=[("h_model", "C14")], bounded=["CRP::tables_weights_gibbs as used on a repeated domain (finding, see C10)"], budget=12,
        assumptions=REL_ASSUME,
        note="The whole item move is discharged for any number of relations, tables and observations: candidates and weights, the drawn table, every relation's blocks following it, nothing else changed."),
    "C15": dict(mods=["hirm"], harness=[("h_model", "C15")], bounded=["HIRM::HIRM", "HIRM::transition_cluster_assignment_relation", "HIRM::transition_cluster_assignments", "HIRM::transition_cluster_assignments_all", "HIRM::transition_latent_values_relation", "HIRM::sample_and_incorporate_relation", "IRM::add_relation, add_relation_with_base, remove_relation (assumed contracts)"], budget=12,
        assumptions=REL_ASSUME + ["IRM::add_relation, add_relation_with_base, remove_relation, incorporate, unincorporate and logp_score as seen from the hierarchical model (specs/hirm.py): the named component gains or loses exactly the named relation object or observation", "deleting a component or relation is not modelled (the stand-in runs under the address sanitizer)", "newly allocated objects differ from those in use"],
        note="incorporate, unincorporate, the lookups, logp_score, add_relation, remove_relation, set_cluster_assignment_gibbs and update_base_relation are discharged over any number of relations and components; the sampled move of a relation is covered by the bounded stand-in only."),
    "C16": dict(mods=[], harness=[("h_model", "C16")], bounded=["to_txt", "from_txt", "load_clusters_irm", "load_clusters_hirm"], budget=12, note="Bounded stand-in only."),
    "C17": dict(mods=["encode"], harness=[("h_parse", "C17"), ("h_model", "C17")], bounded=["load_observations", "write_observations", "merge_observations", "incorporate_observations", "incorporate_observations_relation"], budget=12,
        assumptions=["every observation belongs to a relation of the schema and names at most one entity per domain of it", "in encode_observations: every observed entity has a code (calculate_encoding is proved to give one)", "the alternative of a relation's variant is a valid index"],
        note="For every set of observations and every schema: calculate_encoding gives every observed entity of a domain exactly one code, codes and names are inverse to each other; encode_observations carries every observation to its coded items with its value. Reading and writing files, merging and feeding the model are covered by the bounded stand-in only."),
    "C18": dict(mods=[], harness=[("h_parse", "C18")], bounded=["tokenize", "DistributionSpec", "EmissionSpec", "get_prior", "load_schema"], budget=6, note="Bounded stand-in only."),
    "C19": dict(mods=[], harness=[("h_parse", "C19")], bounded=["DataFrame::from_csv", "DataFrame::to_csv"], budget=6, note="Bounded stand-in only."),
    "C20": dict(mods=[], harness=[("h_gendb", "C20")], bounded=["PCleanSchemaHelper", "GenDB::compute_domains_for", "GenDB::compute_relations_for", "GenDB::compute_reference_indices_for", "get_joint_relations", "read_schema"], budget=8, note="Bounded stand-in only."),
    "C21": dict(mods=["refs"], harness=[("h_gendb", "C21")], bounded=["GenDB::incorporate", "GenDB::incorporate_query_relation", "GenDB::sample_and_incorporate_for_class", "observation loading into HIRM relations"], budget=8,
        assumptions=["reference ids of different references differ (get_reference_id hashes; collisions not considered)", "the schema is well formed and acyclic", "relation_reference_indices form a tree over a relation's domains that follows the schema's references (C20, bounded)", "contracts of CRP::incorporate, unincorporate and sample (proved under C01)", "the HIRM pointer of a GenDB is not null"],
        note="For every database state: sampling a reference files it both as a stored value and as a customer of its entity's CRP; following references downwards (sample_class_ancestors, sample_entities_relation, get_relation_items) reads only stored references, stores only missing ones, never changes a stored one, and yields the items the reference path prescribes. incorporate itself, on top of these, is covered by the bounded stand-in."),
    "C22": dict(mods=["refs"], harness=[("h_gendb", "C22")], bounded=["GenDB::transition_reference", "GenDB::reincorporate_new_refval", "GenDB::update_reference_items", "GenDB::unincorporate_reference", "relation data under a move"], budget=10,
        assumptions=["reference ids of different references differ (get_reference_id hashes; collisions not considered)", "the schema is well formed and acyclic", "relation_reference_indices form a tree over a relation's domains that follows the schema's references (C20, bounded)", "contracts of CRP::incorporate, unincorporate and sample (proved under C01)", "the HIRM pointer of a GenDB is not null"],
        note="For every database state: taking an entity's last reference out of the entity clusters (unincorporate_from_entity_cluster, recursively for the entity's own references) removes exactly the customers whose entity has died, lists each removed one with its value, keeps the stored references, and leaves every other reference filed as before; get_relation_items reads only. The rest of a move is covered by the bounded stand-in."),
    "C26": dict(mods=["ingest"], harness=[("h_gendb", "C26")], bounded=["GenDB::incorporate under the rows handed over (its contract: C21)", "GenDB::sample_entities_relation", "HIRM::sample_and_incorporate_relation", "number parsing through std::stringstream", "pclean.cc (main)"], budget=8,
        assumptions=["the columns of a data frame have the same length (C19)", "cells are printable (the code exits otherwise)", "HIRM::get_relation returns the same relation object for a name while rows are added", "parsing a number from text is one function of the text", "query fields are filed under their own names", "HIRM, IRM and domain pointers of a model are not null"],
        note="For every data frame, schema and start row: incorporate_observations hands GenDB::incorporate each row once, in order, numbered start_row + i, carrying exactly the non-empty cells of the queried columns, each read by its own relation; make_pclean_samples returns one value per query field and sample. The GenDB operations behind the calls are contracts here (bounded stand-in)."),
    "C23": dict(mods=["align"], harness=[("h_emis", "C23")], bounded=["distinctness of the reported alignments", "minimality of the first alignment over all edit scripts"], budget=6,
        assumptions=["the cost function returns the old cost plus a non-negative cost of the last step (edit_distance is proved to)", "std::push_heap and std::pop_heap: the range stays a permutation, pop moves the front to the back, the front of a heap is maximal in the first field of the defaulted operator<=>", "costs are not NaN", "prefix functions of a sequence of pieces do not depend on later pieces"],
        note="For every pair of strings and every k: each reported alignment is an edit script of the whole strings whose cost is the sum of its steps' costs, at most k are reported, in order of non-decreasing cost (invariants of the search queue). Distinctness and minimality are covered by the bounded stand-in only."),
    "C24": dict(mods=["emis"], harness=[("h_emis", "C24")], bounded=["BigramStringEmission (all methods)", "SimpleStringEmission (all methods)"], budget=8,
        assumptions=["the inner error model of Sometimes<T> obeys the interface laws of specs/absdist.py (proved for the implementations under C03/C04/C24)", "DirichletCategorical's laws inside CategoricalEmission are those discharged under C03/C04"],
        note="BitFlip, IdentityEmission, GaussianEmission, CategoricalEmission and Sometimes<bool/int/double/string> over any inner model are discharged; the two string models are covered by the bounded stand-in only."),
    "C25": dict(mods=["nearest"], harness=[("h_emis", "C25")], bounded=["DistributionAdapter::nearest", "BigramStringEmission/SimpleStringEmission::nearest", "topk_alignments as called by StringCat::nearest"], budget=6,
        assumptions=["topk_alignments returns at least one alignment (its property is C23)"],
        note="DirichletCategorical, Bigram, StringNat, StringCat and the default nearest are discharged; adapters by the bounded stand-in only."),
}

NA = {
    "C27": "relational (two-run) property of whole programs through std::mt19937 and unordered-container iteration order; no per-function contract expresses it in this verifier",
    "C28": "a statement about limiting distributions of a Markov chain; no contract over program states expresses it (its local ingredients are C02, C04, C06, C10, C12, C14, C22)",
    "C29": "the Python readers are outside the C++ verifier; no deductive verifier for Python is installed",
}
