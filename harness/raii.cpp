// The rule reads its lists when it is made.
#include "rules/unused/UnusedLocalVariableRule.cpp"
namespace oclint { RuleBase *newUnusedLocal() { return new UnusedLocalVariableRule(); } }
