From 0cf3799f219aa4d7439217125dfd34fc747c777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 01/73] fix: conjugate the sign of sequences in
 non-self-adjoint algebraic contexts

---
 cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 522f266..742c8b3 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -159,7 +159,7 @@ namespace Moment::Algebraic {
             return OperatorSequence::Zero(*this);
         }
 
-        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this};
+        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this, Moment::conjugate(seq.get_sign())};
     }
 
 
-- 
2.43.0


From efa584a82d6e0d12687391e31210bbb55eed7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 02/73] fix: keep sign of scalar (and clear sign of zero) when
 reducing sequences with rulebook

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 52f50f8..189008d 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -192,7 +192,7 @@ namespace Moment::Algebraic {
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
         if (input.empty()) {
-            return HashedSequence{input.zero()};
+            return input;
         } else if (this->monomialRules.empty()) {
             return input;
         }
@@ -241,8 +241,7 @@ namespace Moment::Algebraic {
                 input.set_sign(sign_type);
                 break;
             case RawReductionResult::SetToZero:
-                input.raw().clear();
-                input.rehash(0);
+                input.set_to_zero();
                 break;
         }
         return result;
-- 
2.43.0


From 0f8a88c00316d3aacca611893b22ce1cb021a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 03/73] fix: keep sign of operator sequence when simplifying it
 as an inflation moment

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 72a0bf8..e142aa3 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -417,10 +417,10 @@ namespace Moment::Inflation {
 
         // If source-relabelling causes change in operator order, there could be further simplifications:
         if (!std::is_sorted(permuted_operators.cbegin(), permuted_operators.cend())) {
-            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this}); // recurse..!
+            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this, input.get_sign()}); // recurse..!
         }
 
-        return OperatorSequence{std::move(permuted_operators), *this};
+        return OperatorSequence{std::move(permuted_operators), *this, input.get_sign()};
     }
 
 
-- 
2.43.0


From 70aa3831abf9b1c69091d1b1e478e87b693faae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 04/73] fix: product of zero with signed identity is zero in
 Pauli contexts

---
 cpp/lib_moment/scenarios/pauli/pauli_context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
index c20ff0e..8bcac4e 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
@@ -194,8 +194,8 @@ namespace Moment::Pauli {
 
         // First, if RHS has no operators:
         if (rhs.empty()) {
-            if (rhs.zero()) {
-                // RHS is zero, so product is zero
+            if (rhs.zero() || lhs.zero()) {
+                // Either side is zero, so product is zero
                 return OperatorSequence::Zero(*this);
             } else {
                 // RHS is +1, +i, -1, or -i, so copy LHS with sign change.
-- 
2.43.0


From d45cfed07a668323f69ac30fd8cbc37774e1edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 05/73] fix: operator rules equating a word with -1, i or -i
 times itself set it to zero

---
 cpp/lib_moment/scenarios/algebraic/operator_rule.cpp     | 3 ++-
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index cd31409..a6d6e2f 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -78,7 +78,8 @@ namespace Moment::Algebraic {
         this->rawLHS.set_sign(SequenceSignType::Positive);
 
         // Determine if rule is trivial
-        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash()) && !this->rawRHS.negated();
+        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash())
+                            && (this->rawRHS.zero() || (this->rawRHS.get_sign() == SequenceSignType::Positive));
 
         // Check rule is a reduction
         if (rawLHS.hash() < rawRHS.hash()) {
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 189008d..fee0d90 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -61,6 +61,11 @@ namespace Moment::Algebraic {
             return 0;
         }
 
+        // A = kA for k=-1, i or -i implies A is zero
+        if (rule.rawLHS.hash() == rule.rawRHS.hash()) {
+            return this->do_add_rule(OperatorRule{rule.LHS(), HashedSequence(true)}, logger);
+        }
+
         // Check if rule LHS already exists
         auto hashLHS = rule.rawLHS.hash();
         auto preexistingIter = this->monomialRules.find(hashLHS);
@@ -376,7 +381,7 @@ namespace Moment::Algebraic {
         const SequenceSignType relative_sign = difference(lhs.get_sign(), rhs.get_sign());
 
         // Special reduction if rule implies something is zero:
-        if ((lhs.hash() == rhs.hash()) && (relative_sign == SequenceSignType::Negative)) {
+        if (!lhs.zero() && (lhs.hash() == rhs.hash()) && (relative_sign != SequenceSignType::Positive)) {
             lhs.set_sign(SequenceSignType::Positive);
             return OperatorRule{std::move(lhs), HashedSequence(true)};
         }
-- 
2.43.0


From 6f3acd0a1cbced03aa731c5ce53b251c5009b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 06/73] fix: hash presorted operator sequence after its storage
 is moved into place

---
 cpp/lib_moment/dictionary/operator_sequence.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.cpp b/cpp/lib_moment/dictionary/operator_sequence.cpp
index c51557b..701f2cb 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.cpp
+++ b/cpp/lib_moment/dictionary/operator_sequence.cpp
@@ -41,8 +41,9 @@ namespace Moment {
                                        sequence_storage_t operators,
                                        const Context &context,
                                        const SequenceSignType sign_type) noexcept
-        : HashedSequence{std::move(operators), context.hash(operators), sign_type}, context{&context} {
-
+        : HashedSequence{std::move(operators), static_cast<hash_t>(0), sign_type}, context{&context} {
+        // Hash only after the operators have been moved into place
+        this->the_hash = context.hash(this->operators);
     }
 
 
-- 
2.43.0


From 5d1a76d766dd0586cb6ea335313f4eefbb206097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 07/73] fix: consider every overlap, including of a rule with
 itself, when completing operator rules

---
 cpp/lib_moment/hashed_sequence.cpp            |  9 +-
 cpp/lib_moment/hashed_sequence.h              |  8 ++
 .../scenarios/algebraic/operator_rule.cpp     |  9 +-
 .../scenarios/algebraic/operator_rule.h       | 11 +++
 .../scenarios/algebraic/operator_rulebook.cpp | 85 +++++++++++--------
 .../scenarios/algebraic/operator_rulebook.h   | 12 +++
 6 files changed, 95 insertions(+), 39 deletions(-)

diff --git a/cpp/lib_moment/hashed_sequence.cpp b/cpp/lib_moment/hashed_sequence.cpp
index 18dd207..1b57b95 100644
--- a/cpp/lib_moment/hashed_sequence.cpp
+++ b/cpp/lib_moment/hashed_sequence.cpp
@@ -36,11 +36,16 @@ namespace Moment {
     }
 
     [[nodiscard]] ptrdiff_t HashedSequence::suffix_prefix_overlap(const HashedSequence& rhs) const noexcept {
+        return this->suffix_prefix_overlap(rhs, static_cast<ptrdiff_t>(std::min(this->size(), rhs.size())));
+    }
+
+    [[nodiscard]] ptrdiff_t HashedSequence::suffix_prefix_overlap(const HashedSequence& rhs,
+                                                                  const ptrdiff_t max_overlap) const noexcept {
         const auto& lhs = *this;
 
-        ptrdiff_t match_count = static_cast<ptrdiff_t>(std::min(lhs.size(), rhs.size()));
+        ptrdiff_t match_count = std::min(static_cast<ptrdiff_t>(std::min(lhs.size(), rhs.size())), max_overlap);
         // Early exit, if one string is null.
-        if (0 == match_count) {
+        if (match_count <= 0) {
             return 0;
         }
 
diff --git a/cpp/lib_moment/hashed_sequence.h b/cpp/lib_moment/hashed_sequence.h
index 53e832a..09a0244 100644
--- a/cpp/lib_moment/hashed_sequence.h
+++ b/cpp/lib_moment/hashed_sequence.h
@@ -156,6 +156,14 @@ namespace Moment {
          */
         [[nodiscard]] ptrdiff_t suffix_prefix_overlap(const HashedSequence& rhs) const noexcept;
 
+        /**
+         * Returns the longest suffix of this sequence, of limited length, that is also a prefix of rhs
+         * @param rhs The sequence, whose prefixes we consider
+         * @param max_overlap The maximum length of overlap to consider.
+         * @return The number of characters overlapping (if any).
+         */
+        [[nodiscard]] ptrdiff_t suffix_prefix_overlap(const HashedSequence& rhs, ptrdiff_t max_overlap) const noexcept;
+
         /** Begin iterator over operators */
         [[nodiscard]] constexpr auto begin() const noexcept  { return this->operators.cbegin(); }
 
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index a6d6e2f..0d4279a 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -164,7 +164,14 @@ namespace Moment::Algebraic {
             return std::nullopt;
         }
 
-        // Next, make merged string from both rules' LHS
+        return this->combine(other, pc, overlap_size);
+    }
+
+    OperatorRule
+    OperatorRule::combine(const OperatorRule& other, const AlgebraicPrecontext& pc, const ptrdiff_t overlap_size) const {
+        assert(overlap_size > 0);
+
+        // Make merged string from both rules' LHS
         sequence_storage_t joined_string;
         joined_string.reserve(static_cast<ptrdiff_t>(this->rawLHS.size() + other.rawLHS.size())
                               - overlap_size);
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.h b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
index 740b8b2..0101d02 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
@@ -78,6 +78,17 @@ namespace Moment::Algebraic {
         [[nodiscard]] std::optional<OperatorRule> combine(const OperatorRule& other,
                                                           const AlgebraicPrecontext& precontext) const;
 
+        /**
+         * Forms a new rule by combining left-hand-sides of rules (suffix of this w/ prefix of other) with a particular
+         * overlap, and applying both rules to the joint string.
+         * @param other The rule to combine this with.
+         * @param hasher The hash function, for generating new rule.
+         * @param overlap_size The number of overlapping operators; caller must ensure that the strings overlap by this.
+         * @return The new rule.
+         */
+        [[nodiscard]] OperatorRule combine(const OperatorRule& other, const AlgebraicPrecontext& precontext,
+                                           ptrdiff_t overlap_size) const;
+
         /**
          * True, if this rule directly implies the supplied other rule.
          */
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index fee0d90..17c4034 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -197,7 +197,7 @@ namespace Moment::Algebraic {
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
         if (input.empty()) {
-            return input;
+            return input.zero() ? HashedSequence{true} : input;
         } else if (this->monomialRules.empty()) {
             return input;
         }
@@ -375,9 +375,10 @@ namespace Moment::Algebraic {
 
     OperatorRule OperatorRulebook::reduce(const OperatorRule& input) const {
         // Reduce
-        auto lhs = this->reduce(input.rawLHS);
-        auto rhs = this->reduce(input.rawRHS);
+        return orient(this->reduce(input.rawLHS), this->reduce(input.rawRHS));
+    }
 
+    OperatorRule OperatorRulebook::orient(HashedSequence lhs, HashedSequence rhs) {
         const SequenceSignType relative_sign = difference(lhs.get_sign(), rhs.get_sign());
 
         // Special reduction if rule implies something is zero:
@@ -481,30 +482,54 @@ namespace Moment::Algebraic {
             auto &ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto &ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
+                // Can we form a non-trivial rule by combining?
+                if (this->nontrivial_combination(ruleA, ruleB).has_value()) {
+                    // Not complete: a non-trivial rule was found
+                    return false;
                 }
+            }
+        }
+        // Complete: no non-trivial rules were found.
+        return true;
+    }
 
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
-                }
 
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
+    std::optional<OperatorRule>
+    OperatorRulebook::nontrivial_combination(const OperatorRule& ruleA, const OperatorRule& ruleB) const {
+        const auto& lhsA = ruleA.LHS();
+        const auto& lhsB = ruleB.LHS();
 
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
-                }
-                // Not complete: a non-trivial rule was found
-                return false;
+        // Consider every overlap between suffix of A and prefix of B; rules can also (partially) overlap themselves.
+        ptrdiff_t max_overlap = static_cast<ptrdiff_t>(std::min(lhsA.size(), lhsB.size()));
+        if (lhsA.hash() == lhsB.hash()) {
+            --max_overlap;
+        }
+        for (auto overlap = lhsA.suffix_prefix_overlap(lhsB, max_overlap); overlap > 0;
+                overlap = lhsA.suffix_prefix_overlap(lhsB, overlap - 1)) {
+            auto reduced_rule = this->reduce(ruleA.combine(ruleB, this->precontext, overlap));
+            if (!reduced_rule.trivial()) {
+                return reduced_rule;
             }
         }
-        // Complete: no non-trivial rules were found.
-        return true;
+
+        // Consider also A in the interior of B (which cannot happen, if the ruleset is already reduced).
+        if (lhsA.empty() || (lhsA.size() + 2 > lhsB.size())) {
+            return std::nullopt;
+        }
+        auto match_iter = lhsB.begin() + 1;
+        const auto search_end = lhsB.end() - 1;
+        while ((match_iter = ruleA.matches_anywhere(match_iter, search_end)) != search_end) {
+            auto rule_via_A = ruleA.implies_zero()
+                    ? HashedSequence{true}
+                    : HashedSequence{ruleA.apply_match_with_hint(lhsB.raw(), match_iter),
+                                     this->precontext.hasher, ruleA.rule_sign()};
+            auto reduced_rule = this->orient(this->reduce(rule_via_A), this->reduce(ruleB.RHS()));
+            if (!reduced_rule.trivial()) {
+                return reduced_rule;
+            }
+            ++match_iter;
+        }
+        return std::nullopt;
     }
 
 
@@ -517,24 +542,12 @@ namespace Moment::Algebraic {
             auto& ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto& ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
-
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
+                // Can we form a non-trivial rule by combining?
+                auto maybe_combined_rule = this->nontrivial_combination(ruleA, ruleB);
                 if (!maybe_combined_rule.has_value()) {
                     continue;
                 }
-
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
-
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
-                }
+                auto& combined_reduced_rule = maybe_combined_rule.value();
 
                 // Non-trivial, add it to rule set
                 if (logger) {
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
index 95c709c..557c557 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
@@ -13,6 +13,7 @@
 
 #include <iosfwd>
 #include <map>
+#include <optional>
 #include <span>
 #include <vector>
 
@@ -216,6 +217,14 @@ namespace Moment::Algebraic {
         /** Reduce rule, to best of knowledge, using rules in set */
         [[nodiscard]] OperatorRule reduce(const OperatorRule& input) const;
 
+        /**
+         * Attempt to form a non-trivial (reduced) rule from any way that two rules both apply to the same string.
+         * Looks at each overlap between the suffix of rule A with the prefix of rule B, and for A within B.
+         * @return A reduced rule not implied by the set, if there is one.
+         */
+        [[nodiscard]] std::optional<OperatorRule> nontrivial_combination(const OperatorRule& ruleA,
+                                                                         const OperatorRule& ruleB) const;
+
         /** True, if the supplied operator sequence could be reduced by a rule in the set */
         [[nodiscard]] bool can_reduce(const sequence_storage_t& input) const;
 
@@ -261,6 +270,9 @@ namespace Moment::Algebraic {
         friend std::ostream& operator<<(std::ostream& os, const OperatorRulebook& rulebook);
 
     private:
+        /** Make rule between two equal (reduced) sequences, mapping the larger to the smaller. */
+        [[nodiscard]] static OperatorRule orient(HashedSequence lhs, HashedSequence rhs);
+
 
         /**
          * Recalculate magnitude of the rulebook.
-- 
2.43.0


From 0bb3dc1a9120272e92f5d12cf8ea93e121beb733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 08/73] fix: do not skip first rule when restarting conjugation
 of a rulebook

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 17c4034..9ffaded 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -597,6 +597,7 @@ namespace Moment::Algebraic {
                 // A new rule was added, iter is de facto invalidated, so restart at beginning of set...
                 rule_iter = this->rules().begin();
                 ++added;
+                continue;
             }
             // No new rule, try next rule in set...
             ++rule_iter;
@@ -611,7 +612,7 @@ namespace Moment::Algebraic {
         auto conj_reduced_rule = this->reduce(conj_rule);
 
         // Reject rule if it doesn't imply anything new
-        if (conj_reduced_rule.trivial()) {
+        if (conj_reduced_rule.trivial() || this->monomialRules.contains(conj_reduced_rule.LHS().hash())) {
             return false;
         }
 
-- 
2.43.0


From 40c17b14d67f98e3465b9fa64ba446ba3aed7835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 09/73] fix: appending operators to the zero sequence leaves it
 zero

---
 cpp/lib_moment/dictionary/operator_sequence.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.h b/cpp/lib_moment/dictionary/operator_sequence.h
index 4edd911..b5f677a 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.h
+++ b/cpp/lib_moment/dictionary/operator_sequence.h
@@ -130,6 +130,10 @@ namespace Moment {
          */
         template<std::input_iterator iter_t>
         inline OperatorSequence& append(iter_t begin, iter_t end) {
+            // Zero remains zero
+            if (this->zero()) {
+                return *this;
+            }
             this->operators.insert(this->operators.end(), begin, end);
             this->to_canonical_form();
             return *this;
-- 
2.43.0


From afded56c90d9a9f24f978b7ca4ac244f4f72174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:19 +0000
Subject: [PATCH 10/73] fix: Hermitian symbols registered while building
 matrices are positive, as the sign stays in the entry

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 2c8e1c4..92c86c7 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -107,7 +107,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(elem);
+                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -167,7 +167,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(elem);
+                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -419,7 +419,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, elem);
+                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
@@ -470,7 +470,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, elem);
+                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
-- 
2.43.0


From 73f947c05b3d81dde1f24a2844df7680366fc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 11/73] fix: complex multiple of a Hermitian matrix is not
 flagged as Hermitian

---
 cpp/lib_moment/matrix/monomial_matrix.cpp         | 3 +++
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 6 +++---
 cpp/lib_moment/matrix/value_matrix.cpp            | 4 +++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 9bd2d78..0e06fcd 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -67,6 +67,9 @@ namespace Moment {
         } else if (this->unaliased_op_mat) { // Otherwise, properties from unaliased matrix
             this->unaliased_op_mat->set_properties(*this);
         }
+
+        // A complex multiple of a Hermitian operator matrix is not itself Hermitian
+        this->hermitian = this->hermitian && (prefactor.imag() == 0.0);
     }
 
     MonomialMatrix::~MonomialMatrix() noexcept = default;
diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 92c86c7..d00c953 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -40,8 +40,8 @@ namespace Moment {
 
             OpSeqToSymbolConverter(const Context& context, SymbolTable& symbol_table,
                                    const OperatorMatrix& osm, const std::complex<double> the_factor)
-                    : context{context}, symbol_table{symbol_table}, osm{osm}, hermitian{osm.is_hermitian()},
-                      prefactor{the_factor} {}
+                    : context{context}, symbol_table{symbol_table}, osm{osm},
+                      hermitian{osm.is_hermitian() && (the_factor.imag() == 0.0)}, prefactor{the_factor} {}
 
 
             std::unique_ptr<SquareMatrix<Monomial>> operator()() {
@@ -625,7 +625,7 @@ namespace Moment {
                                                                            std::complex<double> prefactor)
         : context{input_matrix.context}, symbols{symbols},
           dimension{input_matrix.Dimension()}, os_data_ptr{input_matrix.raw()}, prefactor{prefactor},
-          is_hermitian{input_matrix.is_hermitian()} {
+          is_hermitian{input_matrix.is_hermitian() && (prefactor.imag() == 0.0)} {
 
         // Check OS matrix is good
         assert(os_data_ptr != nullptr);
diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 783fef0..24c0b34 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -206,7 +206,9 @@ namespace Moment {
 
             // Deduce if Hermitian
             const bool new_matrix_hermitian = [&]() {
-                if (this->hermitian) {
+                if (weight.imag() != 0.0) {
+                    return false;
+                } else if (this->hermitian) {
                     auto lhs_ht = lhs.hermitian_type();
                     return (lhs_ht == HermitianType::Hermitian);
                 } else if (this->antihermitian) {
-- 
2.43.0


From b4ec90beac888e8056e755ef9b8ea42e5b47d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 12/73] fix: multiply matrix by the operator sequence of a
 monomial, not by its conjugate

---
 cpp/lib_moment/matrix/symbolic_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix/symbolic_matrix.cpp b/cpp/lib_moment/matrix/symbolic_matrix.cpp
index 320de12..ca75e00 100644
--- a/cpp/lib_moment/matrix/symbolic_matrix.cpp
+++ b/cpp/lib_moment/matrix/symbolic_matrix.cpp
@@ -156,8 +156,8 @@ namespace Moment {
             // Resolve monomial into operator sequence using symbol table
             assert(mono.id >= 0 && mono.id < symbol_registry.size());
             assert(symbol_registry[mono.id].has_sequence());
-            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence()
-                                                      : symbol_registry[mono.id].sequence_conj();
+            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence_conj()
+                                                      : symbol_registry[mono.id].sequence();
 
             // Invoke operator sequence multiplication
             if constexpr (premultiply) {
-- 
2.43.0


From 0d70e84adb18f7e0fc56f69c5bd13b94f3cd8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 13/73] fix: symbols of sequences equal to their negated
 conjugates are anti-Hermitian

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 7e87051..ce0b850 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -326,7 +326,7 @@ namespace Moment {
 
             if (seq_hash == conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
-                                          std::make_pair(seq_hash, Symbol{op_seq}));
+                                          std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
             } else if (seq_hash < conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
                                           std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
-- 
2.43.0


From ba6d62a5a7b71faaf37a6de4ea8c74ddb068c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 14/73] fix: deleting matrix one past the end of the matrix
 system is out of range

---
 cpp/lib_moment/matrix_system/matrix_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.cpp b/cpp/lib_moment/matrix_system/matrix_system.cpp
index 98b0ee9..37aa9cb 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.cpp
+++ b/cpp/lib_moment/matrix_system/matrix_system.cpp
@@ -93,7 +93,7 @@ namespace Moment {
     bool MatrixSystem::delete_matrix(const MaintainsMutex::WriteLock& lock, ptrdiff_t index) noexcept {
         assert(this->is_locked_write_lock(lock));
         // No deletion for bad index
-        if ((index < 0) || (index > this->matrices.size())) {
+        if ((index < 0) || (index >= this->matrices.size())) {
             return false;
         }
         // No deletion for missing matrix
-- 
2.43.0


From e2042125890d6781c9e9c0a1ddf895ce37376f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 15/73] fix: localizing matrix indices distinguish the sign of
 their word

---
 .../matrix_system/indices/localizing_matrix_index.h        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
index 5404846..9505972 100644
--- a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
+++ b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
@@ -41,7 +41,12 @@ namespace Moment {
             }
 
             // Then by sequence hash...
-            return (this->WordHash < rhs.WordHash);
+            if (this->WordHash != rhs.WordHash) {
+                return (this->WordHash < rhs.WordHash);
+            }
+
+            // Then by sign: X and -X are not localized by the same matrix.
+            return (this->Word.get_sign() < rhs.Word.get_sign());
         }
 
         /**
-- 
2.43.0


From b782b96d430002352b2cff7a9a73fb662597b6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 16/73] fix: account for signed conjugates when looking up
 sequences in the symbol table

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 10 +++++++---
 cpp/lib_moment/matrix/value_matrix.cpp            |  3 ++-
 cpp/lib_moment/symbolic/polynomial_factory.cpp    | 10 +++++++---
 cpp/lib_moment/symbolic/symbol.h                  | 12 ++++++++++++
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index d00c953..809275a 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -202,7 +202,7 @@ namespace Moment {
 
                     const size_t hash = elem.hash();
 
-                    const auto monomial_sign = to_scalar(elem.get_sign());
+                    auto monomial_sign = to_scalar(elem.get_sign());
 
                     auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
                     if (symbol_id == std::numeric_limits<ptrdiff_t>::max()) {
@@ -212,6 +212,7 @@ namespace Moment {
                         throw std::logic_error{ss.str()};
                     }
                     const auto& unique_elem = symbol_table[symbol_id];
+                    monomial_sign *= unique_elem.factor_when(conjugated);
 
                     if constexpr (has_prefactor) {
                         symbolic_representation[iter.Offset()] = Monomial{unique_elem.Id(), prefactor * monomial_sign,
@@ -272,6 +273,7 @@ namespace Moment {
                         throw std::logic_error{ss.str()};
                     }
                     const auto& unique_elem = symbol_table[symbol_id];
+                    elem_factor *= unique_elem.factor_when(conjugated);
 
                     symbolic_representation[offset] = Monomial{unique_elem.Id(), elem_factor, conjugated};
                 }
@@ -554,7 +556,7 @@ namespace Moment {
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
-                const auto mono_factor = prefactor * to_scalar(elem.get_sign());
+                auto mono_factor = prefactor * to_scalar(elem.get_sign());
                 const size_t hash = elem.hash();
                 auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
 
@@ -565,6 +567,7 @@ namespace Moment {
                     throw std::logic_error{ss.str()};
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
+                mono_factor *= unique_elem.factor_when(conjugated);
 
                 this->bundle.sm_data_ptr[offset] = Monomial{unique_elem.Id(),
                                                             mono_factor,
@@ -590,7 +593,7 @@ namespace Moment {
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
                 const size_t hash = elem.hash();
-                const auto monomial_sign = to_scalar(elem.get_sign());
+                auto monomial_sign = to_scalar(elem.get_sign());
 
                 auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
 
@@ -601,6 +604,7 @@ namespace Moment {
                     throw std::logic_error{ss.str()};
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
+                monomial_sign *= unique_elem.factor_when(conjugated);
 
                 // Write entry
                 write_ptr[offset] = Monomial{unique_elem.Id(), prefactor * monomial_sign, conjugated};
diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 24c0b34..727c86b 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -169,7 +169,8 @@ namespace Moment {
             // Find existing symbol
             auto existing = symbol_table.where(lhs);
             if (existing.found()) {
-                return Monomial{existing.symbol->Id(), weight, existing.is_conjugated};
+                return Monomial{existing.symbol->Id(), weight * existing->factor_when(existing.is_conjugated),
+                                existing.is_conjugated};
             }
 
             // Register new symbol
diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 1dd0772..3abf3b7 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -57,7 +57,8 @@ namespace Moment {
                     throw errors::unregistered_operator_sequence{elem.sequence.formatted_string(), elem.sequence.hash()};
                 }
                 assert(search.symbol != nullptr); // ^- above should throw if this is true.
-                output_storage.emplace_back(search->Id(), elem.weight, search.is_conjugated);
+                output_storage.emplace_back(search->Id(), elem.weight * search->factor_when(search.is_conjugated),
+                                            search.is_conjugated);
             }
             return output_storage;
         }
@@ -73,10 +74,13 @@ namespace Moment {
                     const symbol_name_t inserted_id = symbols.merge_in(OperatorSequence{elem.sequence});
                     auto search_again = symbols.where(elem.sequence); // Search again, could be alised, or conjugated.
                     assert(search_again.found());
-                    output_storage.emplace_back(search_again->Id(), elem.weight, search_again.is_conjugated);
+                    output_storage.emplace_back(search_again->Id(),
+                                                elem.weight * search_again->factor_when(search_again.is_conjugated),
+                                                search_again.is_conjugated);
                 } else {
                     assert(search.symbol != nullptr);
-                    output_storage.emplace_back(search->Id(), elem.weight, search.is_conjugated);
+                    output_storage.emplace_back(search->Id(), elem.weight * search->factor_when(search.is_conjugated),
+                                                search.is_conjugated);
                 }
             }
             return output_storage;
diff --git a/cpp/lib_moment/symbolic/symbol.h b/cpp/lib_moment/symbolic/symbol.h
index eed34eb..80b00dc 100644
--- a/cpp/lib_moment/symbolic/symbol.h
+++ b/cpp/lib_moment/symbolic/symbol.h
@@ -91,6 +91,18 @@ namespace Moment {
             return this->hermitian ? opSeq.value() : this->conjSeq.value();
         }
 
+        /**
+         * The conjugate operator sequence might carry a sign or phase. This gives the factor by which the conjugate of
+         * this symbol is multiplied, to represent the (positive) sequence matching hash_conj().
+         * @param conjugated True, if sequence was found as conjugate of symbol; otherwise factor is always +1.
+         */
+        [[nodiscard]] constexpr std::complex<double> factor_when(const bool conjugated) const noexcept {
+            if (!conjugated || this->hermitian) {
+                return 1.0;
+            }
+            return std::conj(to_scalar(this->sequence_conj().get_sign()));
+        }
+
         /**
          * Does the operator sequence represent its Hermitian conjugate?
          * If true, the element will correspond to a real symbol (cf. complex if not) in the NPA matrix.
-- 
2.43.0


From 9aebf675cb65dc92af1c06493da51e59767f72d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:41 +0000
Subject: [PATCH 17/73] fix: localizing matrices of anti-Hermitian words are
 not generated as if they were Hermitian

---
 cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h b/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h
index 568d655..35abaed 100644
--- a/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h
+++ b/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h
@@ -35,7 +35,8 @@ namespace Moment {
 
         /** Localizing matrices are Hermitian if their word is Hermitian. */
         [[nodiscard]] static inline bool should_be_hermitian(const LocalizingMatrixIndex& lmi) {
-            return !is_imaginary(lmi.Word.get_sign()) && (lmi.Word.hash() == lmi.Word.conjugate().hash());
+            const auto word_type = lmi.Word.hermitian_type();
+            return (word_type == HermitianType::Hermitian) || (word_type == HermitianType::Zero);
         }
 
         /** Localizing matrices always have a prefactor of +1. */
-- 
2.43.0


From d7bcd9a6968004cc1865d33765d8034a7ef80033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 18/73] fix: sequence registered from a Hermitian element with
 imaginary sign is anti-Hermitian

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 809275a..2c3febf 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -107,7 +107,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
+                            build_unique.emplace_back(elem, conj_elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -167,7 +167,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
+                            build_unique.emplace_back(elem, conj_elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -421,7 +421,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
+                    unique_elements.emplace(hash, Symbol{elem, conj_elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
@@ -472,7 +472,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
+                    unique_elements.emplace(hash, Symbol{elem, conj_elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
-- 
2.43.0


From 1b4d55bd9333618f902d9d71330380bccfa48822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 19/73] fix: worker threads do not write the same elements of
 Hermitian matrices

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 2c3febf..8b687fa 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -586,7 +586,8 @@ namespace Moment {
         const auto prefactor = this->bundle.prefactor;
 
         for (size_t col_idx = worker_id; col_idx < row_length; col_idx += max_workers) {
-            for (size_t row_idx = 0; row_idx < row_length; ++row_idx) {
+            // Upper triangle only: element and its conjugate are written together, by exactly one thread.
+            for (size_t row_idx = 0; row_idx <= col_idx; ++row_idx) {
 
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const size_t trans_offset = (row_idx * row_length) + col_idx;
-- 
2.43.0


From 0830a4c23a1dea9a64e3b78dd0d432c4db43808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 20/73] fix: Pauli matrix indices distinguish the sign of their
 word

---
 cpp/lib_moment/scenarios/pauli/indices/monomial_index.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
index f38185c..c35a316 100644
--- a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
+++ b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
@@ -62,7 +62,12 @@ namespace Moment::Pauli {
             }
 
             // Tie-break on word hash
-            return this->WordHash < pmmi.WordHash;
+            if (this->WordHash != pmmi.WordHash) {
+                return this->WordHash < pmmi.WordHash;
+            }
+
+            // Then by sign: X and -X do not index the same matrix.
+            return this->Word.get_sign() < pmmi.Word.get_sign();
         }
 
         [[nodiscard]] operator ::Moment::LocalizingMatrixIndex() const {
-- 
2.43.0


From f8b54999a721330b11aef027c40e09b3e8d3ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 21/73] fix: thread that loses the race to create a generator
 returns the existing one

---
 cpp/lib_moment/dictionary/dictionary.cpp            | 4 ++--
 cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.cpp b/cpp/lib_moment/dictionary/dictionary.cpp
index fae13fe..f56c76b 100644
--- a/cpp/lib_moment/dictionary/dictionary.cpp
+++ b/cpp/lib_moment/dictionary/dictionary.cpp
@@ -51,8 +51,8 @@ namespace Moment {
         std::atomic_thread_fence(std::memory_order_acquire);
         auto reattempt_offset_iter = this->npa_level_to_offset.find(npa_level);
         if (reattempt_offset_iter != this->npa_level_to_offset.cend()) {
-            const ptrdiff_t offset = offset_iter->second;
-            assert(offset >= this->osgs.size());
+            const ptrdiff_t offset = reattempt_offset_iter->second;
+            assert(offset < this->osgs.size());
             return this->osgs[offset]; // Discard pointless creation...!
         }
 
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
index d1d4872..dbe0f6b 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
@@ -41,7 +41,7 @@ namespace Moment::Pauli {
         auto recheck_key = this->nn_indices.find(index);
         if (recheck_key != this->nn_indices.cend()) {
             // We were beaten in a race to create OSG, so discard work and return existing OSG.
-            const auto osg_offset = find_key->second;
+            const auto osg_offset = recheck_key->second;
             assert(osg_offset < this->osgs.size());
             return this->osgs[osg_offset]; // ~write_lock, ~new_osg
         }
-- 
2.43.0


From c65f3ad010072ede3e9d9da42c61980420d3a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 22/73] fix: references to operator sequence generators stay
 valid when further generators are created

---
 cpp/lib_moment/dictionary/dictionary.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.h b/cpp/lib_moment/dictionary/dictionary.h
index 5af507d..aff7763 100644
--- a/cpp/lib_moment/dictionary/dictionary.h
+++ b/cpp/lib_moment/dictionary/dictionary.h
@@ -14,8 +14,8 @@
 #include "multithreading/maintains_mutex.h"
 
 #include <atomic>
+#include <deque>
 #include <map>
-#include <vector>
 
 namespace Moment {
     class Context;
@@ -28,8 +28,8 @@ namespace Moment {
      */
     class Dictionary : protected MaintainsMutex {
     protected:
-        /** List of operator sequences */
-        mutable std::vector<OSGPair> osgs;
+        /** List of operator sequences (references to its elements remain valid as it grows) */
+        mutable std::deque<OSGPair> osgs;
 
         /** Key, linking NPA hierarchy level (e.g. moment matrix level) to generator offset */
         mutable std::map<size_t, size_t> npa_level_to_offset;
-- 
2.43.0


From 52fe3299538e47789fd588b49adf43f69c92db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 23/73] fix: include bottom-right corners, not top-right ones
 twice, among lattice nearest-neighbour triplets

---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index d207cfd..f3b87aa 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -205,7 +205,7 @@ namespace Moment::Pauli {
                 // Bottom left corner
                 ld.symmetrical_fill(std::array<size_t, 3>{0, 1, context.col_height+1}, false);
                 // Bottom right corner
-                ld.symmetrical_fill(std::array<size_t, 3>{0, context.col_height, context.col_height+1}, false);
+                ld.symmetrical_fill(std::array<size_t, 3>{1, context.col_height, context.col_height+1}, false);
             }
 
             return sequences.size() - initial_count;
-- 
2.43.0


From b061355c519e13f82548313a00569ee67a28be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 24/73] fix: Polynomial::is_conjugate compares complex symbols

---
 cpp/lib_moment/symbolic/polynomial.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index a4191f2..7bf1921 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -403,6 +403,14 @@ namespace Moment {
                 } else {
                     return false;
                 }
+            } else {
+                // Symbol is complex: kX must be matched by k*X* (which, if both X and X* occur, is a neighbour).
+                const auto match = std::find_if(other.data.cbegin(), other.data.cend(), [&lhs_elem](const Monomial& elem) {
+                    return (elem.id == lhs_elem.id) && (elem.conjugated != lhs_elem.conjugated);
+                });
+                if ((match == other.data.cend()) || !approximately_equal(lhs_elem.factor, std::conj(match->factor))) {
+                    return false;
+                }
             }
         }
 
-- 
2.43.0


From f9b622453f6c639dd82014183a05ec13804cd587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 25/73] fix: maximum degree by hash passes over symbols without
 operator sequence

---
 cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
index de4df98..0b3a76d 100644
--- a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
+++ b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
@@ -48,6 +48,7 @@ namespace Moment {
             if (symbol.has_sequence()) {
                 return symbol.sequence().size();
             }
+            ++rev_iter;
         }
 
         // Nothing found; 0 degree
-- 
2.43.0


From d39c8c3b6640b4faca8eccd4e054176bf1f0dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 26/73] fix: nearest-neighbour dictionaries on wrapping chains
 and lattices listed words more than once

---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 24 ++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index f3b87aa..8a2cd6c 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -12,6 +12,8 @@
 #include "utilities/combinations.h"
 #include "dictionary/multi_operator_iterator.h"
 
+#include <set>
+
 namespace Moment::Pauli {
     namespace {
         /**
@@ -254,6 +256,24 @@ namespace Moment::Pauli {
         }
     }
 
+    namespace {
+        /**
+         * Keep only the first occurrence of every sequence.
+         * On small wrapping chains and lattices, the same set of sites can be reached in more than one way.
+         */
+        void remove_repeated_sequences(std::vector<OperatorSequence>& sequences) {
+            std::set<uint64_t> known_hashes;
+            std::vector<OperatorSequence> unique;
+            unique.reserve(sequences.size());
+            for (auto& sequence : sequences) {
+                if (known_hashes.insert(sequence.hash()).second) {
+                    unique.emplace_back(std::move(sequence));
+                }
+            }
+            sequences.swap(unique);
+        }
+    }
+
     PauliSequenceGenerator::PauliSequenceGenerator(const PauliContext& pauli_context, const size_t word_length)
         : OperatorSequenceGenerator{pauli_context, word_length, std::vector<OperatorSequence>{}},
           pauli_context{pauli_context}, nearest_neighbour_index{word_length, 0} {
@@ -386,6 +406,10 @@ namespace Moment::Pauli {
                                                word_length, this->nearest_neighbour_index.neighbours);
             }
         }
+
+        if (wrap) {
+            remove_repeated_sequences(this->unique_sequences);
+        }
     }
 
 
-- 
2.43.0


From 9608d473b7fca102f75e75ddbb298ae631d7ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 27/73] fix: unaliased symmetric fill of a lattice iterates
 over all rows of a column

---
 cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 5affa3e..87d920a 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -97,7 +97,7 @@ namespace Moment::Pauli {
 
             // Lattice
             for (size_t col = 0; col < hasher.row_width; ++col) {
-                for (size_t row = (col != 0) ? 0 : 1; row < hasher.row_width; ++row) {
+                for (size_t row = (col != 0) ? 0 : 1; row < hasher.column_height; ++row) {
                     for (const auto& base_hash : base_hashes) {
                         output.emplace_back(OperatorSequence::ConstructPresortedFlag{},
                                             hasher.unhash(hasher.lattice_shift(base_hash, row, col)),
-- 
2.43.0


From 2ae674396917a60248ba4e16652c989d4da2e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 28/73] fix: row shifts in large lattices are cyclic in the
 column height, not the row width

---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 5231d2f..8a81122 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -240,7 +240,7 @@ namespace Moment::Pauli {
         [[nodiscard]] Datum row_cyclic_shift(const Datum& input, size_t offset) const noexcept {
 
             // Normalize rotation, and get within-column offsets
-            offset = offset % this->row_width;
+            offset = offset % this->column_height;
             const storage_t bit_offset = 2ULL * offset;
             const storage_t bit_anti_offset = (this->column_height * 2ULL) - bit_offset;
 
-- 
2.43.0


From 35cc8f22dd1fc0ef1bbd544737d278ac8e4bd1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 29/73] fix: cyclic shift of a chain of up to 32 qubits reduces
 its offset by the chain length

---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 8a81122..2c1b6ae 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -398,7 +398,7 @@ namespace Moment::Pauli {
          * Bit rotation for chain
          */
         [[nodiscard]] Datum cyclic_shift(const Datum input, size_t offset) const noexcept {
-            offset = 2 * (offset % qubits_per_slide);
+            offset = 2 * (offset % this->qubits);
             if (0 == offset) {
                 return input;
             }
-- 
2.43.0


From b5f78fc7de6fdaf5a7172fa68d6ed062fce320f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 30/73] fix: translations by negative offsets in wrapping
 chains and lattices

---
 .../symmetry/moment_simplifier_wrapping.h     | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
index 764e85d..6030002 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
@@ -68,13 +68,11 @@ namespace Moment::Pauli {
         [[nodiscard]] sequence_storage_t chain_offset(const std::span<const oper_name_t> input,
                                                       ptrdiff_t offset) const final {
             // Translate offsets to positive range:
-            offset = offset % this->context.qubit_size;
-            if (offset < 0) {
-                offset = this->site_hasher.qubits - offset;
-            }
+            const size_t positive_offset = to_positive_range(offset, this->site_hasher.qubits);
 
             // Via hash, shift:
-            return this->site_hasher.unhash(this->site_hasher.cyclic_shift(this->site_hasher.hash(input), offset));
+            return this->site_hasher.unhash(this->site_hasher.cyclic_shift(this->site_hasher.hash(input),
+                                                                           positive_offset));
         }
 
         using MomentSimplifier::lattice_offset;
@@ -84,19 +82,20 @@ namespace Moment::Pauli {
                                           ptrdiff_t row_offset,
                                           ptrdiff_t col_offset) const final {
             // Translate offsets to positive range:
-            row_offset = row_offset % this->context.qubit_size;
-            if (row_offset < 0) {
-                row_offset = this->site_hasher.qubits - row_offset;
-            }
-
-            col_offset = col_offset % this->context.qubit_size;
-            if (col_offset < 0) {
-                col_offset = this->site_hasher.qubits - col_offset;
-            }
+            const size_t positive_row_offset = to_positive_range(row_offset, this->site_hasher.column_height);
+            const size_t positive_col_offset = to_positive_range(col_offset, this->site_hasher.row_width);
 
             // Via hash, shift:
             return this->site_hasher.unhash(this->site_hasher.lattice_shift(this->site_hasher.hash(input),
-                                                                            row_offset, col_offset));
+                                                                            positive_row_offset,
+                                                                            positive_col_offset));
+        }
+
+    private:
+        /** Reduces offset (positive or negative) to range 0 to size-1 inclusive. */
+        [[nodiscard]] static constexpr size_t to_positive_range(const ptrdiff_t offset, const size_t size) noexcept {
+            const auto remainder = offset % static_cast<ptrdiff_t>(size);
+            return static_cast<size_t>((remainder < 0) ? remainder + static_cast<ptrdiff_t>(size) : remainder);
         }
     };
 
-- 
2.43.0


From c88d6e95043c86109866b974f2c2684aab8d6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 31/73] fix: alias-free test of lattice patterns compares rows
 with column height, columns with row width

---
 .../scenarios/pauli/symmetry/lattice_duplicator.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 87d920a..391cf9d 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -145,8 +145,8 @@ namespace Moment::Pauli {
             // Reason from indices if aliasing is completely impossible
             MomentSimplifierNoWrappingLattice nowrap{duplicator.context};
             auto [max_row, max_col] = nowrap.lattice_supremum(lattice_indices);
-            const bool no_horz_alias = (max_row <= hasher.row_width/2);
-            const bool no_vert_alias = (max_col <= hasher.column_height/2);
+            const bool no_horz_alias = (max_col <= hasher.row_width/2);
+            const bool no_vert_alias = (max_row <= hasher.column_height/2);
             if (no_horz_alias && no_vert_alias) {
                 return do_unaliased_lattice_symmetric_fill(duplicator, output, hasher, lattice_indices);
             }
-- 
2.43.0


From f0f8002a4982fb900f42bcd662ccfe1a46a03417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 32/73] fix: effective size of a list of lattice sites does not
 depend on their order

---
 .../pauli/symmetry/moment_simplifier_no_wrapping.cpp       | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp
index 3bd5011..c43e714 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp
@@ -171,12 +171,11 @@ namespace Moment::Pauli {
             return {0, 0};
         }
 
-        // Max column will be column of last qubit:
-        const size_t max_column = 1 + (input.back() / this->column_height);
-
-        // Scan for maximum row
+        // Scan for maximum row and column (sites can be in any order)
+        size_t max_column = (input[0] / this->column_height) + 1;
         size_t max_row = (input[0] % this->column_height) + 1;
         for (size_t idx = 1; idx < input.size(); ++idx) {
+            max_column = std::max(max_column, (input[idx] / this->column_height) + 1);
             max_row = std::max(max_row, (input[idx]  % this->column_height) + 1);
         }
 
-- 
2.43.0


From 7e142c6bb0594a97e1888d84408a0c3a80c3ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 33/73] fix: terms of a raw polynomial that commute with every
 generator are registered for its commutator matrix

---
 cpp/lib_moment/matrix/composite_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix/composite_matrix.h b/cpp/lib_moment/matrix/composite_matrix.h
index 6993ff2..d37d2b6 100644
--- a/cpp/lib_moment/matrix/composite_matrix.h
+++ b/cpp/lib_moment/matrix/composite_matrix.h
@@ -258,8 +258,8 @@ namespace Moment {
                 constituents.matrix_dimension = system.osg_size(osg_index);
             }
 
-            // Make approximate and true index
-            auto aliased_polynomial = poly_factory.construct(raw_polynomial);
+            // Make approximate and true index (registering terms that appear in none of the constituents, if any)
+            auto aliased_polynomial = poly_factory.register_and_construct(symbols, raw_polynomial);
             return std::make_unique<ImplType>(context, symbols, system.polynomial_factory(),
                                               polynomial_index_t{std::move(osg_index), std::move(aliased_polynomial)},
                                               std::move(constituents),
-- 
2.43.0


From 333482fd30284f1fa0bcc6d32a98ff4b1ad38a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 34/73] fix: basis mask of a monomial includes the first real
 and imaginary basis elements

---
 cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
index cc0a373..2f19e21 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
@@ -99,10 +99,10 @@ namespace Moment {
         }
         auto& symbol_info = this->symbols[monomial.id];
         auto [re_basis_index, im_basis_index] = symbol_info.basis_key();
-        if (re_basis_index > 0) {
+        if (re_basis_index >= 0) {
             real_mask.set(re_basis_index);
         }
-        if (im_basis_index > 0) {
+        if (im_basis_index >= 0) {
             imaginary_mask.set(im_basis_index);
         }
     }
-- 
2.43.0


From 6a0d6978f4930653f98a4bda2d08be3a85f6697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 35/73] fix: imaginary part of a polynomial in terms of real
 basis elements

---
 cpp/lib_moment/symbolic/polynomial_to_basis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
index fdd2ab2..feb8450 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
@@ -230,7 +230,7 @@ namespace Moment {
                     // Im(Z) can be non-zero
                     if constexpr(export_imaginary) {
                         if (!approximately_zero(bz_factor_ax, zero_tolerance)) {
-                            imaginary_output.real.insert(basis_X_real) = az_factor_ax;
+                            imaginary_output.real.insert(basis_X_real) = bz_factor_ax;
                         }
                     }
 
-- 
2.43.0


From 3bfe9f3b3190a95525f935ba6a5acc239ec19a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 36/73] fix: complex basis vector does not multiply the real
 part by i

---
 cpp/lib_moment/symbolic/polynomial_to_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.h b/cpp/lib_moment/symbolic/polynomial_to_basis.h
index 58877b6..f268fd8 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.h
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.h
@@ -54,7 +54,7 @@ namespace Moment {
 
         ComplexBasisVector() = default;
         explicit ComplexBasisVector(const RealAndImaginaryBasisVector& expr) {
-            this->real = (std::complex<double>{0.0, 1.0} * expr.real_part.real)
+            this->real = (std::complex<double>{1.0, 0.0} * expr.real_part.real)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.real;
             this->imaginary = (std::complex<double>{1.0, 0.0} * expr.real_part.imaginary)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.imaginary;
-- 
2.43.0


From df193639b7e65244845cd7e26a2165caa7b1fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 37/73] fix: sums with monomials do not retain terms that are
 zero

---
 cpp/lib_moment/symbolic/polynomial_factory.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 3abf3b7..26b7663 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -104,10 +104,18 @@ namespace Moment {
             if (approximately_zero(factor, this->zero_tolerance)) {
                 return Polynomial::Zero();
             } else {
-                return Polynomial{Monomial{lhs.id, factor, lhs.conjugated}};
+                return Polynomial{Monomial{lhs.id, factor, lhs.conjugated}, this->zero_tolerance};
             }
         }
 
+        // Terms that are zero do not appear in polynomials
+        if ((0 == lhs.id) || approximately_zero(lhs.factor, this->zero_tolerance)) {
+            return Polynomial{rhs, this->zero_tolerance};
+        }
+        if ((0 == rhs.id) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return Polynomial{lhs, this->zero_tolerance};
+        }
+
         // Otherwise, construct as two element sum:
         if (this->less(lhs, rhs)) {
             return Polynomial{Polynomial::init_raw_tag{}, Polynomial::storage_t{lhs, rhs}};
@@ -117,6 +125,11 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Polynomial& lhs, const Monomial& rhs) const {
+        // Adding zero does nothing
+        if ((0 == rhs.id) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return lhs;
+        }
+
         Polynomial output;
         output.data.reserve(lhs.size()+1);
 
-- 
2.43.0


From 5662bca8ef0798b9e4c7f0fdaffe77e417fedb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 38/73] fix: conjugates with anti-Hermitian symbols are
 compared up to rounding

---
 cpp/lib_moment/symbolic/polynomial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index 7bf1921..b3aade5 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -392,11 +392,11 @@ namespace Moment {
                 // no need to compare conjugation, symbol is real.
             } else if (symbolInfo.is_antihermitian()) {
                 // Symbol is purely imaginary; so either A = -A, or A = A*.
-                if (lhs_elem.factor == std::conj(rhs_elem.factor)) {
+                if (approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor))) {
                     if (lhs_elem.conjugated == rhs_elem.conjugated) {
                         return false;
                     }
-                } else if (lhs_elem.factor == -std::conj(rhs_elem.factor)) {
+                } else if (approximately_equal(lhs_elem.factor, -std::conj(rhs_elem.factor))) {
                     if (lhs_elem.conjugated != rhs_elem.conjugated) {
                         return false;
                     }
-- 
2.43.0


From 8b6971decdaa2e27bcdd455ef7fc77c4283b8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 39/73] fix: rule that collides with an existing rule no longer
 changes the rulebook's flags

---
 .../symbolic/rules/moment_rulebook.cpp        | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index 9f6999e..e6d6d59 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -96,26 +96,31 @@ namespace Moment {
         const auto id = msr.LHS();
         assert (id < this->symbols.size());
 
+        // Do add
+        auto [iter, added] = this->rules.insert(std::make_pair(id, std::move(msr)));
+
+        // If rule collided, rulebook is not changed
+        if (!added) {
+            return false;
+        }
+
         // If non-monomial rule is directly injected, rulebook becomes non-monomial.
-        if (!msr.RHS().is_monomial()) {
+        if (!iter->second.RHS().is_monomial()) {
             this->monomial_rules = false;
         }
 
         // If rule maps Hermitian symbol to non-Hermitian combo, rulebook becomes non-Hermitian.
-        if (this->symbols[msr.LHS()].is_hermitian()) {
-            if (!msr.RHS().is_hermitian(this->symbols, this->factory.zero_tolerance)) {
+        if (this->symbols[id].is_hermitian()) {
+            if (!iter->second.RHS().is_hermitian(this->symbols, this->factory.zero_tolerance)) {
                 this->hermitian_rules = false;
             }
         }
 
-        // Do add
-        auto [iter, added] = this->rules.insert(std::make_pair(id, std::move(msr)));
-
         // Add key
         this->rules_in_order.insert(std::make_pair(this->factory.key(Monomial{iter->second.lhs}),
                                                    iter));
 
-        return added;
+        return true;
     }
 
     size_t MomentRulebook::complete() {
-- 
2.43.0


From af7eb7b231a2592514613ff3ca7a5e2b0c65aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 40/73] fix: injected rule that replaces an anti-Hermitian
 symbol by something else marks rulebook as non-Hermitian

---
 cpp/lib_moment/symbolic/rules/moment_rulebook.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index e6d6d59..adab747 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -114,6 +114,11 @@ namespace Moment {
             if (!iter->second.RHS().is_hermitian(this->symbols, this->factory.zero_tolerance)) {
                 this->hermitian_rules = false;
             }
+        } else if (this->symbols[id].is_antihermitian()) {
+            // Likewise, if rule maps anti-Hermitian symbol to a combo that is not anti-Hermitian.
+            if (!iter->second.RHS().is_antihermitian(this->symbols, this->factory.zero_tolerance)) {
+                this->hermitian_rules = false;
+            }
         }
 
         // Add key
@@ -239,6 +244,9 @@ namespace Moment {
 
                 return pair.second.RHS().is_hermitian(this->symbols, this->factory.zero_tolerance);
             }
+            if (this->symbols[pair.first].is_antihermitian()) {
+                return pair.second.RHS().is_antihermitian(this->symbols, this->factory.zero_tolerance);
+            }
             // MonomialRules on non-Hermitian variables can do as they please.
             return true;
         });
-- 
2.43.0


From eabcd54ff6891c2811f6537dd172cbd3ba97f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 41/73] fix: extended matrix workers terminate when a new
 product is a prefix of another

---
 .../inflation/multithreading/temporary_symbols_and_factors.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
index 7be6692..7cc2100 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
@@ -42,8 +42,7 @@ namespace Moment::Multithreading {
 
         // Can we directly find node?
         auto [hint_tree, hint_factors] = this->index_tree.find_node_or_return_hint(joint_factors);
-        if (hint_factors.empty()) {
-            assert (hint_tree->value().has_value());
+        if (hint_factors.empty() && hint_tree->value().has_value()) {
             return hint_tree->value().value();
         }
 
-- 
2.43.0


From b2c469f9d8ea2f1b54a351c89aaf443be8956a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 42/73] fix: product of factors with zero is zero

---
 cpp/lib_moment/scenarios/inflation/factor_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index 6212088..efea45d 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -368,7 +368,7 @@ namespace Moment::Inflation {
         // If "0" is somehow a factor of either left or right, the product is zero
         assert(!output.empty());
         if (output[0] == 0) [[unlikely]] {
-            output.emplace_back(0);
+            output.assign(1, 0);
             return;
         }
 
-- 
2.43.0


From 59fca508bb2bfcdf98a308db9d9a7131424d267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 43/73] fix: extended matrix reads factors of an entry that may
 have been reallocated

---
 cpp/lib_moment/scenarios/inflation/extended_matrix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index a4055a5..4b90b1d 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -112,13 +112,14 @@ namespace Moment::Inflation {
 
             // Make bottom-right block
             for (size_t i = 0, iMax = extension_scalars.size(); i < iMax; ++i) {
-                const auto& row_factors = factors[extension_scalars[i]].canonical.symbols;
+                // Copies, because of possible re-allocation within factor table!
+                const auto row_factors = factors[extension_scalars[i]].canonical.symbols;
                 auto diag_fac_id = combine_and_register_factors(symbols, factors, row_factors, row_factors);
                 const std::array<size_t,2> diag_index{old_dimension+i, old_dimension+i};
                 extended_matrix(diag_index) = Monomial{diag_fac_id};
 
                 for (size_t j = i+1; j < iMax; ++j) {
-                    const auto& col_factors = factors[extension_scalars[j]].canonical.symbols;
+                    const auto col_factors = factors[extension_scalars[j]].canonical.symbols;
                     auto offdiag_fac_id = combine_and_register_factors(symbols, factors, row_factors, col_factors);
                     const std::array<size_t,2> upper_index{old_dimension+i, old_dimension+j};
                     extended_matrix(upper_index) = Monomial{offdiag_fac_id};
-- 
2.43.0


From 295f437095b4930f2a6b4675ea98b8aab47c3c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 44/73] fix: multithreaded extended matrix does not check for
 unknown symbols

---
 .../scenarios/inflation/extended_matrix.cpp    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index 4b90b1d..dae7b28 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -61,15 +61,6 @@ namespace Moment::Inflation {
                                            const MomentMatrix& moment_matrix,
                                            const std::span<const symbol_name_t> extension_scalars) {
 
-            // Check scalars are in range
-            for (const auto scalar : extension_scalars) {
-                if ((scalar >= symbols.size()) || (scalar < 0)) {
-                    std::stringstream errSS;
-                    errSS << "Cannot extend matrix with unknown symbol \"" << scalar << "\".";
-                    throw std::logic_error{errSS.str()};
-                }
-            }
-
             // Create matrix, with source matrix as upper block
             const size_t padding = extension_scalars.size();
             auto extended_matrix = source.SymbolMatrix().pad(padding, Monomial{0});
@@ -164,6 +155,15 @@ namespace Moment::Inflation {
                 throw std::invalid_argument{"Scalar extension of non-Hermitian matrices is not supported."};
             }
 
+            // Check scalars are in range
+            for (const auto scalar : extension_scalars) {
+                if ((scalar >= symbols.size()) || (scalar < 0)) {
+                    std::stringstream errSS;
+                    errSS << "Cannot extend matrix with unknown symbol \"" << scalar << "\".";
+                    throw std::logic_error{errSS.str()};
+                }
+            }
+
             // Get target dimension
             const size_t target_dimension = source.Dimension() + extension_scalars.size();
             const bool should_multithread
-- 
2.43.0


From 7584adcfb5fc160d0dbd45f77b0a58320f063022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 45/73] fix: unflatten_outcome_index accepts the first
 observable out of range

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index e142aa3..8b9af3c 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -474,7 +474,7 @@ namespace Moment::Inflation {
         output.reserve(input.size());
         size_t index = 0;
         for (const auto& ov : input) {
-            if (ov.observable > this->inflated_observables.size()) {
+            if (ov.observable >= this->inflated_observables.size()) {
                 std::stringstream errSS;
                 errSS << "Observable \"" << ov.observable << "\" at index " << index << " out of range.";
                 throw errors::bad_observable{index, errSS.str()};
-- 
2.43.0


From 1edfb09aa8d5a3f73361d1d6039dc28831756edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 46/73] fix: products registered by extension are not counted
 as appearances of their factors

---
 .../scenarios/inflation/factor_table.cpp          | 15 +++++++++++----
 cpp/lib_moment/scenarios/inflation/factor_table.h |  3 +++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index efea45d..911f09c 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -129,7 +129,13 @@ namespace Moment::Inflation {
         }
 
         // Count factors
-        for (size_t entry_index = next_id; entry_index < extra_symbols; ++entry_index) {
+        this->count_appearances(next_id);
+
+        return extra_symbols - next_id;
+    }
+
+    void FactorTable::count_appearances(const size_t first_entry) {
+        for (size_t entry_index = first_entry; entry_index < this->entries.size(); ++entry_index) {
             const auto& factor_entry = this->entries[entry_index];
             // Non-trivial factors?
             if (factor_entry.canonical.symbols.size() > 1) {
@@ -139,8 +145,6 @@ namespace Moment::Inflation {
                 }
             }
         }
-
-        return extra_symbols - next_id;
     }
 
     void FactorTable::register_new(symbol_name_t id, std::vector<symbol_name_t> factors) {
@@ -157,6 +161,8 @@ namespace Moment::Inflation {
 
         // Create index
         index_tree.add(new_entry.canonical.symbols, new_entry.id);
+
+        this->count_appearances(new_entry.id);
     }
 
     void FactorTable::register_new(std::vector<std::unique_ptr<std::vector<symbol_name_t>>>&& definitions,
@@ -164,6 +170,7 @@ namespace Moment::Inflation {
                                    IndexTree<symbol_name_t, symbol_name_t>&& indices) {
         assert(definitions.size() == op_seqs.size());
 
+        const size_t first_new_entry = this->entries.size();
         symbol_name_t next_symbol_id = this->entries.size();
         for (size_t index = 0; index < definitions.size(); ++index) {
             auto& def_ptr = definitions[index];
@@ -180,7 +187,7 @@ namespace Moment::Inflation {
 
         index_tree.merge_in(std::move(indices));
 
-
+        this->count_appearances(first_new_entry);
     }
 
 
diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.h b/cpp/lib_moment/scenarios/inflation/factor_table.h
index 11d175a..a147ac9 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.h
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.h
@@ -182,6 +182,9 @@ namespace Moment {
         private:
             size_t check_for_new_factors();
 
+            /** Count factors of entries, starting from supplied entry. */
+            void count_appearances(size_t first_entry);
+
         };
     }
 }
\ No newline at end of file
-- 
2.43.0


From a0abfae1902a121f7800dcd5d051e1663dd8ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 47/73] fix: rulebooks are not told of symbols introduced by
 extended matrices

---
 .../inflation/inflation_matrix_system.cpp          | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 814272c..267cb22 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -59,10 +59,16 @@ namespace Moment::Inflation {
         }
         auto& monomial_source = dynamic_cast<MonomialMatrix&>(source);
 
-        return std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
-                                                this->polynomial_factory().zero_tolerance,
-                                                monomial_source, index.extension_list,
-                                                mt_policy);
+        const size_t previous_symbol_count = this->Symbols().size();
+        auto output = std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
+                                                       this->polynomial_factory().zero_tolerance,
+                                                       monomial_source, index.extension_list,
+                                                       mt_policy);
+        const size_t new_symbol_count = this->Symbols().size();
+        if (new_symbol_count > previous_symbol_count) {
+            this->on_new_symbols_registered(lock, previous_symbol_count, new_symbol_count);
+        }
+        return output;
     }
 
     std::set<symbol_name_t> InflationMatrixSystem::suggest_extensions(const class MonomialMatrix& matrix) const {
-- 
2.43.0


From 2296f12525d737ebb1cd9516cc0577bf2c305772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 48/73] fix: expanding a rulebook can leave it in expansion
 mode, and miscounts its rules

---
 .../inflation/inflation_matrix_system.cpp       | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 267cb22..f091d27 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -119,11 +119,16 @@ namespace Moment::Inflation {
         assert(&rulebook.factory == &this->polynomial_factory());
 
         // Do not expand rulebook if it does not permit it, or if it is empty
-        if (!rulebook.enable_expansion() || rulebook.empty()) {
+        if (rulebook.empty() || !rulebook.enable_expansion()) {
             return 0;
         }
 
-        const ptrdiff_t initial_rule_count = rulebook.size();
+        // Turn off rulebook's expansion mode when done (even if by exception).
+        struct ExpansionGuard {
+            MomentRulebook& rulebook;
+            ~ExpansionGuard() noexcept { rulebook.disable_expansion(); }
+        } guard{rulebook};
+
         const auto& poly_factory = rulebook.factory;
 
         std::vector<Polynomial> new_rules;
@@ -182,13 +187,7 @@ namespace Moment::Inflation {
         rulebook.add_raw_rules(std::move(new_rules));
 
         // Compile rules
-        ptrdiff_t final_rule_count = rulebook.complete();
-
-        // Turn off rulebook's expansion mode
-        rulebook.disable_expansion();
-
-        // How many rules?
-        return final_rule_count - initial_rule_count;
+        return static_cast<ptrdiff_t>(rulebook.complete());
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From cf64c8c3dc5aada34fec45307890c75c353e4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 49/73] fix: reject measurement and outcome indices that are
 out of range in tensor queries

---
 cpp/lib_moment/probability/collins_gisin.cpp       |  7 +++++--
 .../inflation/inflation_collins_gisin.cpp          |  9 ++++++---
 .../inflation/inflation_probability_tensor.cpp     | 14 ++++++++++----
 .../scenarios/locality/locality_collins_gisin.cpp  |  9 ++++++---
 .../locality/locality_probability_tensor.cpp       | 14 ++++++++++----
 5 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index ea3e06d..271bf4f 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -169,7 +169,7 @@ namespace Moment {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
 
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex > this->gmIndex.size()) {
+            if (mmtIndex >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex];
@@ -191,7 +191,7 @@ namespace Moment {
 
         for (size_t n = 0; n < mmtIndices.size(); ++n) {
 
-            if (mmtIndices[n] > this->gmIndex.size()) {
+            if (mmtIndices[n] >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndices[n]];
@@ -199,6 +199,9 @@ namespace Moment {
                 throw errors::BadCGError("Two measurements from same party cannot be specified.");
             }
             if (fixedOutcomes[n] >= 0) {
+                if (static_cast<size_t>(fixedOutcomes[n]) >= gmInfo.length) {
+                    throw errors::BadCGError("Outcome index out of bounds.");
+                }
                 lower_bounds[gmInfo.party] = gmInfo.offset + fixedOutcomes[n];
                 upper_bounds[gmInfo.party] = gmInfo.offset + fixedOutcomes[n] + 1;
             } else {
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index af0f746..3dd5f90 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -92,7 +92,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -112,7 +112,7 @@ namespace Moment::Inflation {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -125,13 +125,16 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: fixedOutcomes) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
             if (lower_bounds[gmInfo.party] != 0) {
                 throw Moment::errors::BadCGError("Two measurements from same party cannot be specified.");
             }
+            if ((mmtIndex.outcome < 0) || (static_cast<size_t>(mmtIndex.outcome) >= gmInfo.length)) {
+                throw Moment::errors::BadCGError("Outcome index out of bounds.");
+            }
 
             lower_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome;
             upper_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome + 1;
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index 729fa5a..55a08b9 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -48,7 +48,7 @@ namespace Moment::Inflation {
         for (const auto& mmtIndex : mmtIndices) {
 
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
 
@@ -69,7 +69,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (const auto& mmtIndex : freeMeasurements) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -81,12 +81,15 @@ namespace Moment::Inflation {
 
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
                 throw Moment::errors::BadPTError("Two measurements of the same observable cannot be specified.");
             }
+            if ((mmtIndex.outcome < 0) || (static_cast<size_t>(mmtIndex.outcome) + 1 >= this->Dimensions[global_index])) {
+                throw Moment::errors::BadPTError("Outcome index out of bounds.");
+            }
 
             lower_bounds[global_index] = 1 + mmtIndex.outcome;
             upper_bounds[global_index] = 2 + mmtIndex.outcome;
@@ -100,12 +103,15 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (index[global_index] != 0) {
                 throw Moment::errors::BadPTError("Two measurements of the same observable cannot be specified.");
             }
+            if ((mmtIndex.outcome < 0) || (static_cast<size_t>(mmtIndex.outcome) + 1 >= this->Dimensions[global_index])) {
+                throw Moment::errors::BadPTError("Outcome index out of bounds.");
+            }
 
             index[global_index] = 1 + mmtIndex.outcome;
         }
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 79a1f20..d0e537d 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -69,7 +69,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -88,7 +88,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -100,13 +100,16 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
             if (lower_bounds[gmInfo.party] != 0) {
                 throw errors::BadCGError("Two measurements from same party cannot be specified.");
             }
+            if (mmtIndex.outcome >= gmInfo.length) {
+                throw errors::BadCGError("Outcome index out of bounds.");
+            }
 
             lower_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome;
             upper_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome + 1;
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index d43db38..5c841e9 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -52,7 +52,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex  upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -73,7 +73,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : freeMeasurements) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -85,13 +85,16 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
             if (lower_bounds[gmEntry.party] != 0) {
                 throw errors::BadPTError("Two measurements from same party cannot be specified.");
             }
+            if (mmtIndex.outcome >= gmEntry.length) {
+                throw errors::BadPTError("Outcome index out of bounds.");
+            }
 
             lower_bounds[gmEntry.party] = gmEntry.offset + mmtIndex.outcome;
             upper_bounds[gmEntry.party] = gmEntry.offset + mmtIndex.outcome + 1;
@@ -104,13 +107,16 @@ namespace Moment::Locality {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
             if (index[gmEntry.party] != 0) {
                 throw errors::BadPTError("Two outcomes from same party cannot be specified.");
             }
+            if (mmtIndex.outcome >= gmEntry.length) {
+                throw errors::BadPTError("Outcome index out of bounds.");
+            }
             index[gmEntry.party] = gmEntry.offset + mmtIndex.outcome;
         }
 
-- 
2.43.0


From 01fb7b55c076da51d6bb2becde23ee66e4e74510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 50/73] fix: do not replace a Collins-Gisin tensor that another
 thread has just made

---
 cpp/lib_moment/probability/maintains_tensors.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/probability/maintains_tensors.cpp b/cpp/lib_moment/probability/maintains_tensors.cpp
index 4bc2c32..e4001f0 100644
--- a/cpp/lib_moment/probability/maintains_tensors.cpp
+++ b/cpp/lib_moment/probability/maintains_tensors.cpp
@@ -42,7 +42,9 @@ namespace Moment  {
             read_lock.unlock();
 
             auto write_lock = this->get_write_lock();
-            this->collinsGisin = this->makeCollinsGisin();
+            if (!this->collinsGisin) {  // Double-check, in case scooped.
+                this->collinsGisin = this->makeCollinsGisin();
+            }
             const bool has_all_symbols = this->collinsGisin->HasAllSymbols();
             write_lock.unlock();
 
-- 
2.43.0


From 495804c27059978744ae3e0020b8142b50c733fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 51/73] fix: construct an empty DynamicBitset with default
 value true

---
 cpp/lib_moment/utilities/dynamic_bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/dynamic_bitset.h b/cpp/lib_moment/utilities/dynamic_bitset.h
index 6143edc..e8904f9 100644
--- a/cpp/lib_moment/utilities/dynamic_bitset.h
+++ b/cpp/lib_moment/utilities/dynamic_bitset.h
@@ -101,7 +101,7 @@ namespace Moment {
         /** Construct an empty dynamic bitset with all values set to default_value */
         constexpr DynamicBitset(const index_t bit_size, const bool default_value)
             : DynamicBitset<page_t, index_t, storage_t>{bit_size} {
-            if (default_value) {
+            if (default_value && (page_count > 0)) {
                 for (index_t i = 0, iMax = page_count - 1; i < iMax; ++i) {
                     this->data[i] = ~static_cast<page_t>(0);
                 }
-- 
2.43.0


From 6563451e698dd9148fcc5301c687f4f21e671da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 52/73] fix: keep the sign of products when words of operators
 are transformed by a symmetry

---
 .../symmetrized/representation_mapper.cpp     | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
index 763e65d..7aacae1 100644
--- a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
@@ -31,6 +31,7 @@ namespace Moment::Symmetrized {
         }
 
         std::vector<size_t> vector_remap(const Context& context,
+                                         std::vector<SequenceSignType>& signs,
                                          const size_t lhs_word_length,
                                          const size_t rhs_word_length,
                                          const size_t target_word_length) {
@@ -62,6 +63,7 @@ namespace Moment::Symmetrized {
                     const auto remap_iter = hash_to_index.find(combined.hash());
                     assert(remap_iter != hash_to_index.cend());
                     output.emplace_back(remap_iter->second);
+                    signs.emplace_back(combined.get_sign());
                 }
             }
 
@@ -69,20 +71,27 @@ namespace Moment::Symmetrized {
         }
 
 
+        [[nodiscard]] constexpr double real_sign(const SequenceSignType sign) noexcept {
+            return (sign == SequenceSignType::Negative) ? -1.0 : 1.0;
+        }
+
         /**
-         * Matrix to sum rows
+         * Matrix to sum rows.
+         * Group elements act with real coefficients, so the products with imaginary signs must cancel out in the sum.
          */
-        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap,
+                                                 const std::vector<SequenceSignType>& signs,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
             RepresentationMapper::lhs_mat_t output(static_cast<int>(remapped_dim), static_cast<int>(raw_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
 
             size_t raw_index = 0;
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                if ((mapped_index > 0) && !is_imaginary(signs[raw_index])) {
                     triplets.emplace_back(static_cast<int>(mapped_index - 1),   // row
                                           static_cast<int>(raw_index), // col
-                                          1.0);
+                                          real_sign(signs[raw_index]));
                 }
                 ++raw_index;
             }
@@ -96,7 +105,9 @@ namespace Moment::Symmetrized {
         /**
          * Matrix to skip columns
          */
-        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap,
+                                                 const std::vector<SequenceSignType>& signs,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
             RepresentationMapper::rhs_mat_t output(static_cast<int>(raw_dim), static_cast<int>(remapped_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
@@ -106,11 +117,11 @@ namespace Moment::Symmetrized {
             size_t true_index = 0;
 
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                if ((mapped_index > 0) && !is_imaginary(signs[true_index])) {
                     if (!done_map.test(mapped_index-1)) {
                         triplets.emplace_back(static_cast<int>(true_index),   // row
                                               static_cast<int>(mapped_index-1), // col
-                                              1.0);
+                                              real_sign(signs[true_index]));
 
                         done_map.set(mapped_index-1);
                     }
@@ -158,13 +169,14 @@ namespace Moment::Symmetrized {
         this->remapped_dim = osg.size();
 
         // Make vector remap
-        this->remap = vector_remap(context,
+        std::vector<SequenceSignType> signs;
+        this->remap = vector_remap(context, signs,
                                    parent_A.target_word_length,
                                    parent_B.target_word_length,
                                    this->target_word_length);
 
-        this->lhs = make_lhs(this->remap, this->raw_dim, this->remapped_dim);
-        this->rhs = make_rhs(this->remap, this->raw_dim, this->remapped_dim);
+        this->lhs = make_lhs(this->remap, signs, this->raw_dim, this->remapped_dim);
+        this->rhs = make_rhs(this->remap, signs, this->raw_dim, this->remapped_dim);
     }
 
     repmat_t RepresentationMapper::operator()(const repmat_t &matrix) const {
-- 
2.43.0


From d181732e60e671a0d371fa5d0e3b74db1ad69dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 53/73] fix: refuse to map symbols that a derived map does not
 define

---
 .../scenarios/derived/symbol_table_map.cpp           | 12 ++++++++++++
 cpp/lib_moment/scenarios/derived/symbol_table_map.h  |  1 +
 2 files changed, 13 insertions(+)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 5a4371c..dd5c729 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -102,14 +102,18 @@ namespace Moment::Derived {
 
         // First, build fixed constants.
         this->map.assign(origin_symbols.size(), Polynomial{}); // 0 -> 0 always
+        this->is_mapped.assign(origin_symbols.size(), false);
         this->map[0] = Polynomial{};      // 0 -> 0 always.
         this->map[1] = Polynomial::Scalar(1.0); // 1 -> 1 always.
+        this->is_mapped[0] = true;
+        this->is_mapped[1] = true;
 
         // Create scalars remap:
         for (auto [row_id, scalar] : this->core->constants) {
             auto [symbol_id, conjugated] = origin_symbols.OSGIndex(row_id);
             assert(!conjugated);
             this->map[symbol_id] = Polynomial::Scalar(scalar);
+            this->is_mapped[symbol_id] = true;
         }
 
         const auto& raw_map = this->core_solution->dense_map;
@@ -141,6 +145,7 @@ namespace Moment::Derived {
 
             // Create mapping
             this->map[source_symbol] = Polynomial{std::move(from_x_to_y)};
+            this->is_mapped[source_symbol] = true;
             ++core_col_id;
         }
 
@@ -205,6 +210,13 @@ namespace Moment::Derived {
             throw errors::bad_map{ss.str()};
         }
 
+        // The origin may contain symbols (e.g. of longer operator sequences) that the map says nothing about
+        if (!this->is_mapped[symbol_id]) {
+            std::stringstream ss;
+            ss << "Symbol " << symbol_id << " is not within the range of the map.";
+            throw errors::bad_map{ss.str()};
+        }
+
         // Remap
         return this->map[symbol_id];
     }
diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.h b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
index 6a8fdd0..ac0fdf5 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.h
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
@@ -43,6 +43,7 @@ namespace Moment {
             SymbolTable& target_symbols;
 
             std::vector<Polynomial> map;
+            std::vector<bool> is_mapped;
             std::vector<Polynomial> inverse_map;
             bool _is_monomial_map = false;
 
-- 
2.43.0


From 190f1a75d5e2623bd48866e7bfd6a7dc7e96ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 54/73] fix: do not conjugate the factor of a monomial when it
 is mapped

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index dd5c729..1965639 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -226,10 +226,10 @@ namespace Moment::Derived {
         Polynomial output = (*this)(symbol.id);
 
         // Apply transformations (using target symbol table)
-        output *= symbol.factor;
         if (symbol.conjugated) {
             output.conjugate_in_place(this->target_symbols);
         }
+        output *= symbol.factor; // factor is not part of what is conjugated
 
         return output;
     }
@@ -296,10 +296,10 @@ namespace Moment::Derived {
         Polynomial output = this->inverse(symbol.id);
 
         // Apply transformations (using origin symbol table)
-        output *= symbol.factor;
         if (symbol.conjugated) {
             output.conjugate_in_place(this->origin_symbols);
         }
+        output *= symbol.factor; // factor is not part of what is conjugated
 
         return output;
     }
-- 
2.43.0


From 3950f5662dca007a0cfdc6c5920a5ce34ea2537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 55/73] fix: keep the phase of conjugate sequences in the
 inverse of a derived map

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 1965639..ed49717 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -167,7 +167,10 @@ namespace Moment::Derived {
                 const double value = raw_inv_map(im_row_id, im_col_id);
                 if (abs(value) != 0.0) {
                     // Map: Core index -> osg index -> symbol table ID
-                    from_y_to_x.emplace_back(osg_to_symbols[non_trivial_idx], value, osg_conjugate[non_trivial_idx]);
+                    // The operator sequence might be the conjugate of the symbol's sequence only up to a phase.
+                    const bool conjugated = osg_conjugate[non_trivial_idx];
+                    const auto& symbol = this->origin_symbols[osg_to_symbols[non_trivial_idx]];
+                    from_y_to_x.emplace_back(symbol.Id(), value * symbol.factor_when(conjugated), conjugated);
                 }
                 ++ im_col_id;
             }
-- 
2.43.0


From 97505b7cd564830c4ed506d069097e7df9bb73fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:15 +0000
Subject: [PATCH 56/73] fix: treat negative constants as constants when a
 sparse map is split

---
 cpp/lib_moment/scenarios/derived/map_core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/map_core.cpp b/cpp/lib_moment/scenarios/derived/map_core.cpp
index 3e47f8e..e9baa58 100644
--- a/cpp/lib_moment/scenarios/derived/map_core.cpp
+++ b/cpp/lib_moment/scenarios/derived/map_core.cpp
@@ -127,7 +127,7 @@ namespace Moment::Derived {
                 continue;
             } else if (1 == nnz) {
                 const double offset_term = input_sparse.coeff(0, col_index);
-                if (offset_term > 0) {
+                if (offset_term != 0) {
                     this->constants.emplace(std::make_pair(static_cast<size_t>(col_index), offset_term));
                     this->nontrivial_cols[col_index] = false;
                     continue;
-- 
2.43.0


From 353089a1dd04720fbacf92bb092767fc54e8c249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:15 +0000
Subject: [PATCH 57/73] fix: symbols of a derived system that stand for
 antihermitian averages have no real part

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index ed49717..b00a903 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -194,7 +194,8 @@ namespace Moment::Derived {
 
         for (const auto& polynomial : this->inverse_map | std::views::drop(2)) {
             const bool is_hermitian = polynomial.is_hermitian(this->origin_symbols, 1.0);
-            this->target_symbols.create(true, !is_hermitian);
+            const bool is_antihermitian = polynomial.is_antihermitian(this->origin_symbols, 1.0);
+            this->target_symbols.create(!is_antihermitian, !is_hermitian);
         }
 
         assert(this->target_symbols.size() == this->inverse_map.size());
-- 
2.43.0


From 6c5170f4b27816c903a92450057c41627ae3f595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 58/73] fix: infer from imported elements with complex factors
 which symbols are real or imaginary

---
 .../imported/imported_matrix_system.cpp       | 127 ++++++++----------
 1 file changed, 58 insertions(+), 69 deletions(-)

diff --git a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
index 240b35f..eb8152e 100644
--- a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
@@ -21,76 +21,76 @@
 namespace Moment::Imported {
 
     namespace {
-        void checkIMSymmetric(const SquareMatrix<Monomial>& input,
-                            DynamicBitset<uint64_t>& can_be_real,
-                            DynamicBitset<uint64_t>& can_be_imaginary) {
-            for (size_t i = 0; i < input.dimension; ++i) {
-                const auto& diagonal = input(std::array<size_t,2>{i, i});
+        /**
+         * Infer what lhs = rhs* implies for the real and imaginary parts of the symbol in these elements.
+         * @return False if the equality cannot be guaranteed by a constraint that can be represented.
+         */
+        bool inferFromConjugates(const Monomial& lhs, const Monomial& rhs,
+                                 DynamicBitset<uint64_t>& can_be_real, DynamicBitset<uint64_t>& can_be_imaginary) {
+            if (lhs.id != rhs.id) {
+                return false;
+            }
+            if (0 == lhs.id) { // 0 = 0*
+                return true;
+            }
 
-                for (size_t j = i+1; j < input.dimension; ++j) {
-                    auto& upper = input(std::array<size_t,2>{i, j});
-                    auto& lower = input(std::array<size_t,2>{j, i});
-                    if ((upper.id != lower.id) || (abs(upper.factor) != abs(lower.factor))) {
-                        std::stringstream errSS;
-                        errSS << "In symmetric matrix import, element [" << i << ", " << j << "] = " << upper
-                              << " does not match element [" << j << ", " << i << "] = " << lower;
+            const auto rhs_factor = std::conj(rhs.factor);
+            const bool factors_equal = (lhs.factor == rhs_factor);
+            const bool factors_opposite = (lhs.factor == -rhs_factor);
 
-                        throw errors::bad_import_matrix{errSS.str()};
-                    }
-                    const bool conj_eq = upper.conjugated == lower.conjugated;
-                    const bool neg_eq = upper.factor == lower.factor;
-
-                    if (conj_eq) {
-                        if (!neg_eq) { // a = -a -> a is zero
-                            can_be_real.unset(upper.id);
-                            can_be_imaginary.unset(upper.id);
-                        } // else a = a, no constraints
-                    } else if (neg_eq) { // a = a* -> a is real
-                        can_be_imaginary.unset(upper.id);
-                    } else { // a = -a* -> a is imaginary
-                        can_be_real.unset(upper.id);
-                    }
+            if (1 == lhs.id) { // Scalars
+                return factors_equal;
+            }
+
+            if (lhs.conjugated != rhs.conjugated) {
+                if (factors_equal) { // a = a, no constraints
+                    return true;
+                }
+                if (!factors_opposite) {
+                    return false;
+                }
+                can_be_real.unset(lhs.id); // a = -a -> a is zero
+                can_be_imaginary.unset(lhs.id);
+                return true;
+            }
+
+            if (factors_equal) { // a = a* -> a is real
+                can_be_imaginary.unset(lhs.id);
+                return true;
+            }
+            if (factors_opposite) { // a = -a* -> a is imaginary
+                can_be_real.unset(lhs.id);
+                return true;
+            }
+
+            return false; // a = a* up to some other factor
+        }
+
+        void checkIMReal(const SquareMatrix<Monomial>& input,
+                         DynamicBitset<uint64_t>& can_be_real, DynamicBitset<uint64_t>& can_be_imaginary) {
+            for (const auto& element : input) {
+                if (!inferFromConjugates(element, element, can_be_real, can_be_imaginary)) {
+                    std::stringstream errSS;
+                    errSS << "In real matrix import, element " << element << " is not real.";
+                    throw errors::bad_import_matrix{errSS.str()};
                 }
             }
         }
 
-        void checkIMHermitian(const SquareMatrix<Monomial>& input, bool can_be_complex,
+        void checkIMHermitian(const SquareMatrix<Monomial>& input, const std::string& matrix_type,
                               DynamicBitset<uint64_t>& can_be_real, DynamicBitset<uint64_t>& can_be_imaginary) {
-
             for (size_t i = 0; i < input.dimension; ++i) {
-                const auto& diagonal = input(std::array<size_t,2>{i, i});
-                // Diagonal elements are always real;
-                can_be_imaginary.unset(diagonal.id);
-
-                for (size_t j = i + 1; j < input.dimension; ++j) {
+                for (size_t j = i; j < input.dimension; ++j) {
                     auto& upper = input(std::array<size_t,2>{i, j});
                     auto& lower = input(std::array<size_t,2>{j, i});
 
-                    if ((upper.id != lower.id) || (abs(upper.factor) != abs(lower.factor))) {
+                    if (!inferFromConjugates(upper, lower, can_be_real, can_be_imaginary)) {
                         std::stringstream errSS;
-                        errSS << "In hermitian matrix import, element [" << i << ", " << j << "] = " << upper
+                        errSS << "In " << matrix_type << " matrix import, element [" << i << ", " << j << "] = " << upper
                               << " does not match element [" << j << ", " << i << "] = " << lower;
 
                         throw errors::bad_import_matrix{errSS.str()};
                     }
-                    const bool conj_eq = upper.conjugated != lower.conjugated; // <- account for Hermiticity
-                    const bool neg_eq = upper.factor == lower.factor;
-
-                    if (!conj_eq) {
-                        if (neg_eq) { // a* = a -> a = -a* -> a is real
-                            can_be_imaginary.unset(upper.id);
-                        } else { // else a* = -a -> a = -a* -> a is imaginary
-                            can_be_real.unset(upper.id);
-                        }
-                    } else if (!neg_eq) { // a = -a -> a is zero
-                        can_be_real.unset(upper.id);
-                        can_be_imaginary.unset(upper.id);
-                    } // else, a* = a*, no constraints
-
-                    // In real-only context, no symbol mentioned can be imaginary
-                    if (!can_be_complex) {
-                        can_be_imaginary.unset(upper.id);
-                    }
                 }
             }
         }
@@ -132,9 +132,6 @@ namespace Moment::Imported {
             throw errors::bad_import_matrix{"Cannot import complex matrix into purely real context."};
         }
 
-        // Real context only defines real symbols, and real import only provides real symbols
-        const bool can_be_complex = !this->importedContext.real_only() && is_complex;
-
         // We need exclusive access at this point
         auto write_lock = this->get_write_lock();
 
@@ -155,21 +152,13 @@ namespace Moment::Imported {
         DynamicBitset<uint64_t> can_be_imaginary{new_max_symbol_id + 1, !this->importedContext.real_only()};
 
         // Check if import type implies real or imaginary parts of mentioned symbols should be zero
-        if (is_hermitian) {
-            if (is_complex) {
-                checkIMHermitian(*input, can_be_complex, can_be_real, can_be_imaginary);
-            } else {
-                checkIMSymmetric(*input, can_be_real, can_be_imaginary);
-            }
+        if (is_hermitian) { // For a real matrix, same as symmetric
+            checkIMHermitian(*input, is_complex ? "hermitian" : "symmetric", can_be_real, can_be_imaginary);
         }
 
-        // If importing real matrix into complex system, all imported reference symbols must be real.
+        // If importing real matrix, all elements must be real.
         if (!is_complex) {
-            if (!this->importedContext.real_only()) {
-                for (auto &symbol: *input) {
-                    can_be_imaginary.unset(symbol.id);
-                }
-            }
+            checkIMReal(*input, can_be_real, can_be_imaginary);
         }
 
 
-- 
2.43.0


From 41f2dca775307d4b91f5a03aed45f49b4ae42c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 59/73] fix: leave the symbol table as it was when an import
 would make a symbol zero

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index ce0b850..f35088a 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -201,9 +201,20 @@ namespace Moment {
         assert(can_be_real.bit_size == can_be_imaginary.bit_size);
         bool changes = false;
 
-        // Ensure enough elements exist
+        // Before making changes, ensure no symbol would become zero
         const size_t initial_elems = this->unique_sequences.size();
         const size_t elems = can_be_real.bit_size;
+        for (size_t id = 1; id < elems; ++id) {
+            const bool already_real = (id < initial_elems) && this->unique_sequences[id].hermitian;
+            const bool already_imaginary = (id < initial_elems) && this->unique_sequences[id].antihermitian;
+            const bool has_real = can_be_real.test(id) && !already_imaginary;
+            const bool has_imaginary = can_be_imaginary.test(id) && !already_real;
+            if (!has_real && !has_imaginary) {
+                throw errors::zero_symbol{static_cast<symbol_name_t>(id)};
+            }
+        }
+
+        // Ensure enough elements exist
         if (elems > initial_elems) {
             this->create(elems - initial_elems);
         }
@@ -224,20 +235,12 @@ namespace Moment {
                         changes = true;
                     }
                     symbol.hermitian = true;
-                    if (symbol.antihermitian) {
-                        throw errors::zero_symbol{symbol.id};
-                    }
                 }
             } else if (sym_has_imaginary) {
                 if (!symbol.antihermitian) {
                     changes = true;
                 }
                 symbol.antihermitian = true;
-                if (symbol.hermitian) {
-                    throw errors::zero_symbol{symbol.id};
-                }
-            } else {
-                throw errors::zero_symbol{symbol.id};
             }
         }
 
-- 
2.43.0


From d17c3e25d60db4c146f0fb8754da2ab5c81d57bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:10 +0000
Subject: [PATCH 60/73] fix: forget bases of matrices that were made before
 symbols were renumbered

---
 cpp/lib_moment/matrix/matrix_basis.cpp      | 12 ++++++++++++
 cpp/lib_moment/matrix/matrix_basis.h        | 10 ++++++++++
 cpp/lib_moment/matrix/monomial_matrix.cpp   |  1 +
 cpp/lib_moment/matrix/polynomial_matrix.cpp |  1 +
 4 files changed, 24 insertions(+)

diff --git a/cpp/lib_moment/matrix/matrix_basis.cpp b/cpp/lib_moment/matrix/matrix_basis.cpp
index 16d7911..524509c 100644
--- a/cpp/lib_moment/matrix/matrix_basis.cpp
+++ b/cpp/lib_moment/matrix/matrix_basis.cpp
@@ -165,6 +165,18 @@ namespace Moment {
             SparseMonolithicComplex{*this, std::move(rhs.SparseMonolithicComplex)} {
     }
 
+    void MatrixBasis::reset() {
+        std::unique_lock write_lock{this->mutex};
+        this->Dense.reset();
+        this->DenseComplex.reset();
+        this->Sparse.reset();
+        this->SparseComplex.reset();
+        this->DenseMonolithic.reset();
+        this->DenseMonolithicComplex.reset();
+        this->SparseMonolithic.reset();
+        this->SparseMonolithicComplex.reset();
+    }
+
     DenseBasisInfo::MakeStorageType MatrixBasis::create_dense() {
         if (this->matrix.HasComplexCoefficients()) {
             throw errors::bad_basis_error{"Matrix has complex coefficients, and so a basis of type [R,C] cannot be created."};
diff --git a/cpp/lib_moment/matrix/matrix_basis.h b/cpp/lib_moment/matrix/matrix_basis.h
index f3c8a6b..91b3503 100644
--- a/cpp/lib_moment/matrix/matrix_basis.h
+++ b/cpp/lib_moment/matrix/matrix_basis.h
@@ -78,6 +78,11 @@ namespace Moment {
 
             /** Constructs the basis from scratch */
             [[nodiscard]] typename MBTInfo::MakeStorageType create_basis() const;
+
+            /** Forget any basis that has been created; it will be re-created when next requested. */
+            void reset() noexcept {
+                this->done.store(false, std::memory_order_release);
+            }
         };
 
     public:
@@ -135,6 +140,11 @@ namespace Moment {
 
         MatrixBasis(const SymbolicMatrix& matrix, MatrixBasis&& rhs) noexcept;
 
+        /**
+         * Forget all created bases, e.g. because symbols have been renumbered. Not thread-safe w.r.t. readers of bases.
+         */
+        void reset();
+
     private:
         DenseBasisInfo::MakeStorageType create_dense();
         SparseBasisInfo::MakeStorageType create_sparse();
diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 0e06fcd..4cfa5c5 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -94,6 +94,7 @@ namespace Moment {
             }
         }
 
+        this->Basis.reset(); // Any bases made with previous numbering are stale
         this->identify_symbols_and_basis_indices();
     }
 
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index 364ad3b..654c6ce 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -152,6 +152,7 @@ namespace Moment {
             polynomial.fix_cc_in_place(symbols, true, zero_tolerance);
         }
 
+        this->Basis.reset(); // Any bases made with previous numbering are stale
         this->identify_symbols_and_basis_indices(zero_tolerance);
     }
 
-- 
2.43.0


From 40fb5b24e167cd093bf60511190cb614c56e6d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:10 +0000
Subject: [PATCH 61/73] fix: clone monomial matrices that have no operators

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 4cfa5c5..cfaaa56 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -171,12 +171,19 @@ namespace Moment {
         auto cloned_symbol_matrix =  std::make_unique<SquareMatrix<Monomial>>(this->dimension,
                                                                               std::move(cloned_symbol_data));
 
-        // Make copy of the matrix
+        // Make copy of the matrix, if it has no operators
+        if (!this->has_unaliased_operator_matrix()) {
+            auto copied_symbols_only = std::make_unique<MonomialMatrix>(this->context, symbol_table, 1.0,
+                                                                        std::move(cloned_symbol_matrix),
+                                                                        this->hermitian, this->global_prefactor);
+            this->copy_properties_onto_clone(*copied_symbols_only);
+            return copied_symbols_only;
+        }
+
+        // Otherwise, make copy with operators too
         std::unique_ptr<MonomialMatrix> copied_matrix =
                 std::make_unique<MonomialMatrix>(symbol_table,
-                                                this->has_unaliased_operator_matrix()
-                                                    ? this->unaliased_operator_matrix().clone(policy)
-                                                    : nullptr,
+                                                this->unaliased_operator_matrix().clone(policy),
                                                 context.can_have_aliases() && this->has_aliased_operator_matrix()
                                                      ? this->aliased_operator_matrix().clone(policy)
                                                      : nullptr,
-- 
2.43.0


From 6f49a6afcf86f70f13a983e82bf9a73649a1bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 62/73] fix: check both triangles of a sparse matrix for
 (anti-)hermiticity

---
 cpp/lib_moment/utilities/eigen_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/utilities/eigen_utils.cpp b/cpp/lib_moment/utilities/eigen_utils.cpp
index 69e994b..6c01ebf 100644
--- a/cpp/lib_moment/utilities/eigen_utils.cpp
+++ b/cpp/lib_moment/utilities/eigen_utils.cpp
@@ -78,7 +78,7 @@ namespace Moment {
 
         for (Eigen::Index outer = 0; outer < data.outerSize(); ++outer) {
             for  (inner_iter_t inner_iter{data, outer}; inner_iter; ++inner_iter) {
-                if (inner_iter.row() > outer) {
+                if (inner_iter.row() != outer) {
                     if (!approximately_equal(data.coeff(inner_iter.col(), inner_iter.row()),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -103,7 +103,7 @@ namespace Moment {
                     if (!approximately_real(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else {
                     if (!approximately_equal(std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -145,7 +145,7 @@ namespace Moment {
                     if (!approximately_imaginary(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else {
                     if (!approximately_equal(-std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
-- 
2.43.0


From 6b50fa48b6ab19b5ac36bab2c8cfee817c1b68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:56 +0000
Subject: [PATCH 63/73] fix: recognise real antisymmetric matrices as
 anti-Hermitian

---
 cpp/lib_moment/matrix/value_matrix.cpp | 12 ++++--------
 cpp/lib_moment/utilities/eigen_utils.h |  8 ++++----
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 727c86b..c460e19 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -86,10 +86,8 @@ namespace Moment {
             this->description = "Real Value Matrix";
         }
 
-        // Since matrix is real, it can only be anti-Hermitian if it is zero.
-        if (is_zero(data)) {
-            this->antihermitian = true;
-        }
+        // Since matrix is real, it is anti-Hermitian if it is anti-symmetric.
+        this->antihermitian = is_antihermitian(data, zero_tolerance);
 
     }
 
@@ -127,10 +125,8 @@ namespace Moment {
             this->description = "Real Value Matrix";
         }
 
-        // Since matrix is real, it can only be anti-Hermitian if it is zero.
-        if (is_zero(data)) {
-            this->antihermitian = true;
-        }
+        // Since matrix is real, it is anti-Hermitian if it is anti-symmetric.
+        this->antihermitian = is_antihermitian(data, zero_tolerance);
 
     }
 
diff --git a/cpp/lib_moment/utilities/eigen_utils.h b/cpp/lib_moment/utilities/eigen_utils.h
index 739802f..929f0e0 100644
--- a/cpp/lib_moment/utilities/eigen_utils.h
+++ b/cpp/lib_moment/utilities/eigen_utils.h
@@ -67,11 +67,11 @@ namespace Moment {
 
      /**
      * True, if data is anti-hermitian (equal to negated conjugate transpose).
-     * For real-valued matrices, equivalent to testing if matrix is zero.
+     * For real-valued matrices, equivalent to testing if matrix is anti-symmetric (equal to negated transpose).
      */
     [[nodiscard]] inline bool is_antihermitian(const Eigen::MatrixXd& data,
                                     double zero_tolerance = 1.0) noexcept {
-        return is_zero(data, zero_tolerance);
+        return (data.rows() == data.cols()) && is_zero(Eigen::MatrixXd{data + data.transpose()}, zero_tolerance);
     }
 
     /**
@@ -82,11 +82,11 @@ namespace Moment {
 
     /**
      * True, if data is anti-hermitian (equal to negated conjugate transpose).
-     * For real-valued matrices, equivalent to testing if matrix is zero.
+     * For real-valued matrices, equivalent to testing if matrix is anti-symmetric (equal to negated transpose).
      */
     [[nodiscard]] inline bool is_antihermitian(const Eigen::SparseMatrix<double>& data,
                                         double zero_tolerance = 1.0) noexcept {
-        return is_zero(data, zero_tolerance);
+        return is_antihermitian(Eigen::MatrixXd{data}, zero_tolerance);
     }
 
     /**
-- 
2.43.0


From d1094a1455a10a49eae9c18603dd6d7fdc868467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:53 +0000
Subject: [PATCH 64/73] fix: let value matrices be multiplied by monomials

---
 cpp/lib_moment/matrix/value_matrix.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/lib_moment/matrix/value_matrix.h b/cpp/lib_moment/matrix/value_matrix.h
index dae4acd..093fe90 100644
--- a/cpp/lib_moment/matrix/value_matrix.h
+++ b/cpp/lib_moment/matrix/value_matrix.h
@@ -42,6 +42,13 @@ namespace Moment {
                     std::optional<std::string> description = std::nullopt);
 
 
+        using MonomialMatrix::pre_multiply;
+
+        using MonomialMatrix::post_multiply;
+
+        /** Value matrices do not need operators to be multiplied. */
+        void throw_error_if_cannot_multiply() const override { }
+
         std::unique_ptr<SymbolicMatrix>
         pre_multiply(const OperatorSequence& lhs, std::complex<double> weight, const PolynomialFactory& poly_factory,
                      SymbolTable& symbol_table, Multithreading::MultiThreadPolicy policy) const override;
-- 
2.43.0


From 399a6d7042bb6144bf2812ddb0e740fc81fd6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:05 +0000
Subject: [PATCH 65/73] fix: keep name of first operator when adjoints are
 interleaved

---
 cpp/lib_moment/scenarios/algebraic/name_table.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/name_table.cpp b/cpp/lib_moment/scenarios/algebraic/name_table.cpp
index 65cfbd8..9939d9c 100644
--- a/cpp/lib_moment/scenarios/algebraic/name_table.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/name_table.cpp
@@ -83,7 +83,9 @@ namespace Moment::Algebraic {
                     std::string conj_str = this->names[idx];
                     conj_str.append("*");
 
-                    this->names[2*idx] = std::move(this->names[idx]);
+                    if (idx > 0) { // First name is already in place; moving it onto itself would clear it.
+                        this->names[2*idx] = std::move(this->names[idx]);
+                    }
 
                     this->index.emplace(std::make_pair(conj_str, (2*idx+1)));
                     this->names[2*idx+1] = std::move(conj_str);
-- 
2.43.0


From 65ad7bd0ec3bbb09a2a272537fd214ecade66598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 66/73] fix: print the phase of scalars, and imaginary phases
 of local and inflated words

---
 .../scenarios/algebraic/algebraic_context.cpp    |  2 +-
 .../scenarios/inflation/inflation_context.cpp    | 16 +++++++++++++---
 .../scenarios/locality/locality_context.cpp      | 16 +++++++++++++---
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 742c8b3..892b538 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -170,7 +170,7 @@ namespace Moment::Algebraic {
         }
 
         if (seq.empty()) {
-            os.os << "1";
+            Context::format_sequence(os, seq); // +/-1, +/-i
             return;
         }
 
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 8b9af3c..7d50153 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -572,12 +572,22 @@ namespace Moment::Inflation {
             return;
         }
         if (seq.empty()) {
-            os.os << "1";
+            Context::format_sequence(os, seq); // +/-1, +/-i
             return;
         }
 
-        if (seq.negated()) {
-            os.os << "-";
+        switch (seq.get_sign()) {
+            case SequenceSignType::Positive:
+                break;
+            case SequenceSignType::Imaginary:
+                os.os << "i";
+                break;
+            case SequenceSignType::Negative:
+                os.os << "-";
+                break;
+            case SequenceSignType::NegativeImaginary:
+                os.os << "-i";
+                break;
         }
 
         if (os.format_info.show_braces) {
diff --git a/cpp/lib_moment/scenarios/locality/locality_context.cpp b/cpp/lib_moment/scenarios/locality/locality_context.cpp
index c9628d4..3fae6d1 100644
--- a/cpp/lib_moment/scenarios/locality/locality_context.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_context.cpp
@@ -224,12 +224,22 @@ namespace Moment::Locality {
                 return;
             }
             if (seq.empty()) {
-                os << "1";
+                context.Context::format_sequence(os, seq); // +/-1, +/-i
                 return;
             }
 
-            if (seq.negated()) {
-                os << "-";
+            switch (seq.get_sign()) {
+                case SequenceSignType::Positive:
+                    break;
+                case SequenceSignType::Imaginary:
+                    os << "i";
+                    break;
+                case SequenceSignType::Negative:
+                    os << "-";
+                    break;
+                case SequenceSignType::NegativeImaginary:
+                    os << "-i";
+                    break;
             }
 
             if (os.format_info.show_braces) {
-- 
2.43.0


From b11cf7db547cc3f04bc799482b29275434968fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:17 +0000
Subject: [PATCH 67/73] fix: inverted copy of an empty bitset

---
 cpp/lib_moment/utilities/dynamic_bitset.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/lib_moment/utilities/dynamic_bitset.h b/cpp/lib_moment/utilities/dynamic_bitset.h
index e8904f9..5d99cb0 100644
--- a/cpp/lib_moment/utilities/dynamic_bitset.h
+++ b/cpp/lib_moment/utilities/dynamic_bitset.h
@@ -268,6 +268,10 @@ namespace Moment {
          */
         constexpr DynamicBitset<page_t, index_t, storage_t> operator~() const {
             DynamicBitset<page_t, index_t, storage_t> output{this->bit_size};
+            // Do nothing if no data
+            if (this->page_count <= 0) {
+                return output;
+            }
             for (index_t page = 0; page < (this->page_count-1); ++page) {
                 output.data[page] = ~this->data[page];
             }
-- 
2.43.0


From bb365412fe0095da79bddd0c21c999cad3eda8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:40 +0000
Subject: [PATCH 68/73] fix: longest string whose shortlex hash fits in 64 bits

---
 cpp/lib_moment/shortlex_hasher.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/shortlex_hasher.h b/cpp/lib_moment/shortlex_hasher.h
index e650b0d..9077dd3 100644
--- a/cpp/lib_moment/shortlex_hasher.h
+++ b/cpp/lib_moment/shortlex_hasher.h
@@ -10,6 +10,7 @@
 
 #include <cmath>
 
+#include <limits>
 #include <span>
 #include <vector>
 
@@ -68,9 +69,22 @@ namespace Moment {
                 // Hash is basically just string length for radix 1.
                 return std::numeric_limits<size_t>::max() - this->offset;
             }
-            return static_cast<size_t>(
-                    static_cast<double>(std::numeric_limits<size_t>::digits) / std::log2(this->radix)
-            );
+            if (this->radix == 0) {
+                return 0;
+            }
+            // The largest hash of a string of length n is offset + radix + radix^2 + ... + radix^n.
+            hash_t remaining = std::numeric_limits<hash_t>::max() - this->offset;
+            hash_t stride = this->radix;
+            size_t length = 0;
+            while (stride <= remaining) {
+                ++length;
+                remaining -= stride;
+                if (stride > std::numeric_limits<hash_t>::max() / this->radix) {
+                    break;
+                }
+                stride *= this->radix;
+            }
+            return length;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From 80818d9dfe894a09036225b3c9a5810563554750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:40 +0000
Subject: [PATCH 69/73] fix: U+007F takes one byte in UTF-8

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index 7c85d3e..00becb6 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -15,7 +15,7 @@ namespace Moment {
     size_t UTF16toUTF8Convertor::size_in_utf8(const std::basic_string<char16_t> &wstring) {
         size_t output = 0;
         for (char16_t elem : wstring) {
-            if (elem < 0x007f) {
+            if (elem <= 0x007f) {
                 output += 1;
             } else if (elem <= 0x07FF) {
                 output += 2;
-- 
2.43.0


From 223110629240af80823d987c683cd90a562a5f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:40 +0000
Subject: [PATCH 70/73] fix: convert code points of plane 16 between UTF-8 and
 UTF-16

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index 00becb6..8a83d86 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -109,7 +109,7 @@ namespace Moment {
 
                     const char16_t surrogate_high = (src & 0x03FF) + 0x0040; // Correct for 0x10000 offset of code point
 
-                    const auto b0 = static_cast<char>( 0xf0 | ((surrogate_high & 0x0300) >> 8)); // 2 bits to first char
+                    const auto b0 = static_cast<char>( 0xf0 | ((surrogate_high & 0x0700) >> 8)); // 3 bits to first char
                     const auto b1 = static_cast<char>( 0x80 | ((surrogate_high & 0x00fc) >> 2)); // 6 bits to next char
                     const auto b2 = static_cast<char>( 0x80 | ((surrogate_high & 0x0003) << 4) // 2 from high
                                                             | ((surrogate_low & 0x03c0) >> 6));  // 4 from low
@@ -248,12 +248,12 @@ namespace Moment {
                     return output;
                 }
 
-                const auto b1 = src & 0x03; // 2
+                const auto b1 = src & 0x07; // 3
                 const auto b2 = *(src_ptr+1) & 0x3f; // 6
                 const auto b3 = *(src_ptr+2) & 0x3f; // 6
                 const auto b4 = *(src_ptr+3) & 0x3f; // 6
 
-                const auto hi_surrogate = static_cast<char16_t>((0xd800 | (b1 << 8) | (b2 << 2) | ((b3&0x30) >> 4))
+                const auto hi_surrogate = static_cast<char16_t>(0xd800 + ((b1 << 8) | (b2 << 2) | ((b3&0x30) >> 4))
                                                                 - 0x0040); // - 0x10000, as viewed on high surrogate.
                 const auto lo_surrogate = static_cast<char16_t>(0xdc00 | ((b3 & 0x0f) << 6) | b4);
 
-- 
2.43.0


From 578c988db488c8859714e8e09f1c84a6172deb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:40 +0000
Subject: [PATCH 71/73] fix: reference to entry of recursive storage

---
 cpp/lib_moment/utilities/recursive_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/recursive_index.h b/cpp/lib_moment/utilities/recursive_index.h
index 49f3002..260fee4 100644
--- a/cpp/lib_moment/utilities/recursive_index.h
+++ b/cpp/lib_moment/utilities/recursive_index.h
@@ -112,7 +112,7 @@ namespace Moment {
          * @return Reference to the stored value.
          */
         [[nodiscard]] constexpr const type_t& access(std::span<const size_t> indices) const noexcept {
-            auto place = subtree(indices);
+            const auto& place = subtree(indices);
             return place.access();
         }
 
-- 
2.43.0


From a3cb8c6aa38ec700560875a661a5e601fc6b0d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:40 +0000
Subject: [PATCH 72/73] fix: lost wake-up of thread waiting on queue

---
 cpp/lib_moment/multithreading/queue.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/multithreading/queue.h b/cpp/lib_moment/multithreading/queue.h
index 061bc4f..ce05894 100644
--- a/cpp/lib_moment/multithreading/queue.h
+++ b/cpp/lib_moment/multithreading/queue.h
@@ -98,7 +98,7 @@ namespace Moment::Multithreading {
                 this->tail->next = std::move(next_node);
                 this->tail = this->tail->next.get();
             }
-            this->data_cv.notify_one();
+            this->notify_waiters(false);
             // ~tail_lock
         }
 
@@ -113,13 +113,13 @@ namespace Moment::Multithreading {
                 this->tail->next = std::move(next_node);
                 this->tail = this->tail->next.get();
             }
-            this->data_cv.notify_one();
+            this->notify_waiters(false);
             // ~tail_lock
         }
 
         void abort() noexcept {
             this->abort_flag.test_and_set(std::memory_order_release);
-            this->data_cv.notify_all();
+            this->notify_waiters(true);
         }
 
         [[nodiscard]] inline bool aborting() const noexcept {
@@ -176,6 +176,23 @@ namespace Moment::Multithreading {
             return output;
         }
 
+        /**
+         * Wakes thread(s) waiting for data.
+         * Must be called after the change that is to be noticed, without holding a lock on either mutex.
+         */
+        void notify_waiters(const bool all) const noexcept {
+            {
+                // A waiting thread holds the head mutex from when it tests for data, until it blocks.
+                // Hence, once this lock is acquired, either it has blocked, or it shall see the change.
+                std::lock_guard head_lock{this->head_mutex};
+            }
+            if (all) {
+                this->data_cv.notify_all();
+            } else {
+                this->data_cv.notify_one();
+            }
+        }
+
         /**
          * Pops the head off the list.
          * A lock on head_mutex should be held by caller.
-- 
2.43.0


From e6eb737a92412c1328daa32d3e121828f2322638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 73/73] fix: matrix transformations with several threads report
 exceptions of their workers

---
 .../multithreading/matrix_transformation_worker.h     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cpp/lib_moment/multithreading/matrix_transformation_worker.h b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
index 67c4ea7..cb84278 100644
--- a/cpp/lib_moment/multithreading/matrix_transformation_worker.h
+++ b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
@@ -99,11 +99,12 @@ namespace Moment::Multithreading {
         // Wait for all threads to finish...
         for (auto &worker: workers) {
             worker.join();
-            // If worker had an exception, propagate it to main thread:
-            if constexpr(!noexcept(the_functor)) {
-                if (worker.exception) {
-                    std::rethrow_exception(worker.exception);
-                }
+        }
+
+        // If any worker had an exception, propagate it to main thread:
+        for (auto &worker: workers) {
+            if (worker.exception) {
+                std::rethrow_exception(worker.exception);
             }
         }
     }
-- 
2.43.0

