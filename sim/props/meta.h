// Metadata workloads (names, tags, containers) and their oracle: per name, the recorded operations must be explained by
// executing them one at a time in an order that respects their real-time order (durable across restarts).
#pragma once
#include "regions.h"
struct MetaRules { bool tags = true, members = true, ids = true, names = true; };
void check_meta(Plan &p, const MetaRules &ru);
const std::string &pool(const std::string &s); // stable storage for bytes an operation supplies
AppOp &op_tag(Plan &p, int ph, int c, int kind, int slot, bool cont, const std::string &name);
std::string colliding_name(Rng &r, const std::string &prefix, int i); // names of one prefix share their hash in pairs
void rand_tag_value(Rng &r, AppOp &o);
