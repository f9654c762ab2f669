From 10e4f5a393fbc2b0c1741351036fa3f14cab1c7a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 01/52] fix: parse_angle read a destroyed string for angles of
 the form n*pi

---
 src/gates/parse_gates.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 268e548..63db554 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -125,10 +125,11 @@ Fraction parse_angle(std::string_view s)
 
     // use split on with *pi/ as delimiter
     auto split = lstk::split_on(s,"*pi/");
+    std::string ns; // split holds views into it below, so it has to outlive them
     if(split.size() != 2) {
         //Is this an angle of the form 3*pi?
         // not sure why but maybe we need something like
-        std::string ns = std::string(s) + "/1";
+        ns = std::string(s) + "/1";
 
         split = lstk::split_on(ns,"*pi/");
         if(split.size() != 2)
-- 
2.43.0


From 6e1e84136856c66b65522a6ddb5b8715ae2e1306 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 02/52] fix: split_on with a string delimiter read past the end
 of its input

---
 include/lstk/lstk.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 23f27c3..64dc468 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -113,22 +113,27 @@ static inline std::vector<std::string_view> split_on(std::string_view s, std::st
         ret.emplace_back(accum_begin, static_cast<size_t>(std::distance(accum_begin, accum_end)));
     };
 
+    bool ends_on_delim = false;
     while (accum_end != s.end())
     {
-        if (std::equal(delim.begin(), delim.end(), accum_end))
+        if (s.substr(static_cast<size_t>(std::distance(s.begin(), accum_end))).starts_with(delim))
         {
             push_accum_to_ret();
-            accum_end += delim.size(); // skip the delim
+            accum_end += static_cast<std::ptrdiff_t>(delim.size()); // skip the delim
             accum_begin = accum_end;
+            ends_on_delim = true;
         } else
+        {
             accum_end++;
+            ends_on_delim = false;
+        }
     }
 
     if (accum_begin != accum_end)
         push_accum_to_ret();
 
     // Add a trailing empty string when finishing on a delimiter
-    else if(accum_begin > s.begin() && std::equal(delim.begin(), delim.end(), accum_end)) ret.push_back("");
+    else if(ends_on_delim) ret.push_back("");
 
     return ret;
 }
-- 
2.43.0


From 6ed4f93aa1e17acc41815e5648dbda2b0571dc0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 03/52] fix: qasm indices that are negative or too large were
 silently wrapped to another qubit

---
 src/gates/parse_gates.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 63db554..7e19255 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -5,6 +5,7 @@
 #include <vector>
 #include <stdexcept>
 #include <iostream>
+#include <utility>
 
 namespace lsqecc {
 
@@ -29,7 +30,7 @@ Integer try_parse_int(std::string_view sv)
 
     errno = 0;
     char* endptr;
-    Integer res = std::strtol(s.c_str(), &endptr, 10);
+    const long res = std::strtol(s.c_str(), &endptr, 10);
 
     if (errno != 0)
         throw GateParseException(lstk::cat("Could not parse ", s, "as string, strtol gave errno: ",
@@ -38,10 +39,12 @@ Integer try_parse_int(std::string_view sv)
         throw GateParseException(lstk::cat("Could not parse ", s, ". No digits were found"));
     if (*endptr != '\0')
         throw GateParseException(lstk::cat("Could not parse ", s, ". Further characters after number"));
+    if (!std::in_range<Integer>(res))
+        throw GateParseException(lstk::cat("Could not parse ", s, ". Number out of range"));
 
 //    if(std::to_string(res) != s)
 //        throw GateParseException(std::string{"Could not parse "} + s + "as string, atol gave "+std::to_string(res));
-    return res;
+    return static_cast<Integer>(res);
 }
 
 Line split_instruction_and_args(std::string_view gate_str)
-- 
2.43.0


From 6e39040f5d058fd822eac3ea448941989c21b59f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 04/52] fix: rz and crz without operands read out of bounds,
 and any gate name starting with rz or crz was taken for them

---
 src/gates/parse_gates.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 7e19255..481841f 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -188,7 +188,7 @@ gates::Gate parse_qasm_gate(const Line& line)
                 determine_cnot_ancilla_placement(line.annotations));
     }
 
-    if(line.instruction.substr(0,2) == "rz")
+    if(line.instruction.starts_with("rz("))
     {
         if (get_arg_in_brackets(line.instruction) == "pi*-1")
             return gates::Z(get_index_arg(line.args.at(0)));
@@ -202,17 +202,17 @@ gates::Gate parse_qasm_gate(const Line& line)
         }
 
         return gates::RZ{
-            get_index_arg(line.args[0]),
+            get_index_arg(line.args.at(0)),
             fraction
             };
     }
-    if(line.instruction.substr(0,3) == "crz")
+    if(line.instruction.starts_with("crz("))
     {
         if(line.instruction.substr(3,4) == "(pi/")
         {
             return gates::CRZ(
-                get_index_arg(line.args[1]),
-                get_index_arg(line.args[0]),
+                get_index_arg(line.args.at(1)),
+                get_index_arg(line.args.at(0)),
                 parse_angle(get_arg_in_brackets(line.instruction)),
                 determine_cnot_type(line.annotations),
                 determine_cnot_ancilla_placement(line.annotations));
-- 
2.43.0


From 41f7b669829e69b4c4262440df2d3696b8099d63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 05/52] fix: a line of only white space in qasm was indexed out
 of bounds and then refused as an instruction

---
 src/gates/parse_gates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 481841f..9a59909 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -263,8 +263,8 @@ ParseGateResult parse_gate(std::string_view str_line)
     lstk::ltrim(sline);
     str_line = std::string_view { sline };
 
-    // check for comment at beginning of line
-    if (str_line[0]=='/' && str_line[1] == '/')
+    // check for an empty line, or for a comment at beginning of line
+    if (str_line.empty() || str_line.starts_with("//"))
     {
         return IgnoredInstruction{};
     }
-- 
2.43.0


From 89f5544c001c14477a48cc855cd0e79c1f6a53ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 06/52] fix: rz by an even multiple of pi was compiled to a Z
 gate

---
 src/gates/parse_gates.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 9a59909..3ef4711 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -157,7 +157,7 @@ gates::Reset parse_reset(const std::vector<std::string_view>& args)
     return { std::string{parts[0]}, i };
 }
 
-gates::Gate parse_qasm_gate(const Line& line)
+ParseGateResult parse_qasm_gate(const Line& line)
 {
     if(line.instruction == "x") return gates::X(get_index_arg(line.args.at(0)));
     if(line.instruction == "y") return gates::Y(get_index_arg(line.args.at(0))); 
@@ -197,7 +197,12 @@ gates::Gate parse_qasm_gate(const Line& line)
 
         if(fraction.den == 1)
         {
-            // Multiples of PI are Z with a global phase
+            // Odd multiples of PI are Z with a global phase, even ones are the identity
+            if(fraction.num % 2 == 0)
+            {
+                get_index_arg(line.args.at(0)); // still refuse a malformed operand
+                return IgnoredInstruction{};
+            }
             return gates::Z(get_index_arg(line.args.at(0)));
         }
 
-- 
2.43.0


From de722661da17893c4928373964d137b3c642f713 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 07/52] fix: patch ids that are negative or followed by other
 characters were silently read as another patch

---
 src/ls_instructions/parse_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ls_instructions/parse_utils.cpp b/src/ls_instructions/parse_utils.cpp
index 4cac4e4..0db5fc8 100644
--- a/src/ls_instructions/parse_utils.cpp
+++ b/src/ls_instructions/parse_utils.cpp
@@ -10,9 +10,9 @@ namespace lsqecc
 
 PatchId parse_patch_id(const std::string_view & input)
 {
-    int out;
+    PatchId out;
     const std::from_chars_result result = std::from_chars(input.data(), input.data() + input.size(), out);
-    if(result.ec == std::errc::invalid_argument || result.ec == std::errc::result_out_of_range)
+    if(result.ec != std::errc{} || result.ptr != input.data() + input.size())
     {
         throw std::runtime_error(std::string{"Cannot parse patch id: "}+std::string{input});
     }
-- 
2.43.0


From 238c6a29c06f7a4277d6209eaf1f6cc0ef419870 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 08/52] fix: BellPairInit with fewer than two locations read
 out of bounds

---
 src/ls_instructions/ls_instructions_parse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 27f2e77..2d03fca 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -127,6 +127,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
             locs.push_back(PlaceNexTo{parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1])});
             counter++;
         }
+        if (locs.size() != 2)
+            throw InstructionParseException{std::string{"BellPairInit needs two locations: "}+std::string{patches_dict}};
         return {BellPairInit{side1, side2, locs[0], locs[1]}};
     }      
     else if(instruction == "RequestYState" || instruction == "9")
-- 
2.43.0


From 5ef4cfd35eab7245f2ec168253116a5ca70f2161 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 09/52] fix: the LLI parser refused the Pauli gate and Reset
 instructions that the LLI printer emits

---
 src/ls_instructions/ls_instructions_parse.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 2d03fca..cfea1bf 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -92,6 +92,12 @@ LSInstruction parse_ls_instruction(std::string_view line)
         auto op = PauliOperator_from_string(get_next_arg());
         return {SingleQubitOp{patch_id, static_cast<SingleQubitOp::Operator>(op)}};
     }
+    else if (instruction == "XGate" || instruction == "YGate" || instruction == "ZGate")
+    {
+        auto patch_id = parse_patch_id(get_next_arg());
+        auto op = PauliOperator_from_string(instruction.substr(0,1));
+        return {SingleQubitOp{patch_id, static_cast<SingleQubitOp::Operator>(op)}};
+    }
     else if (instruction == "HGate" || instruction == "5")
     {
         auto patch_id = parse_patch_id(get_next_arg());
@@ -145,6 +151,11 @@ LSInstruction parse_ls_instruction(std::string_view line)
         auto id2 = parse_patch_id(get_next_arg());
         return {BellBasedCNOT{control, target, id1, id2}};
     }  
+    else if (instruction == LSInstructionPrint<PatchReset>::name)
+    {
+        auto patch_id = parse_patch_id(get_next_arg());
+        return {PatchReset{patch_id}};
+    }
     else
     {
         throw InstructionParseException(std::string{"Operation not supported: "}+std::string{instruction});
-- 
2.43.0


From 47623f0b3015dd4e6b04de636549052999bb790d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 10/52] fix: join turned a first element that is a number into
 the character of that code

---
 include/lstk/lstk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 64dc468..17c66aa 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -263,7 +263,7 @@ std::string join(IterableOfStringifiables iterable_of_stringifiables, std::strin
     bool begin = true;
     for(const auto& v: iterable_of_stringifiables)
     {
-        if(begin) acc = v;
+        if(begin) acc = lstk::cat(v);
         else acc = lstk::cat(acc, separator, v);
         begin = false;
     }
-- 
2.43.0


From 159dea4ce27f017b3c391d1ae9091b61a6585f72 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 11/52] fix: str_replace dropped what follows the last replaced
 character

---
 include/lstk/lstk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 17c66aa..0441319 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -221,6 +221,7 @@ static inline std::string str_replace(std::string_view s, char target, std::stri
         out << s.substr(0,s.find(target)) << replace_with;
         s = s.substr(s.find(target)+1,s.length());
     }
+    out << s;
     return out.str();
 }
 
-- 
2.43.0


From 4cfa826e43af18b86b33b0a7b4f6e7e0a8374966 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 12/52] fix: get_cells of a multiple cell patch also returned
 cells at the origin

---
 src/patches/patches.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/patches/patches.cpp b/src/patches/patches.cpp
index 1beb25d..5235b6e 100644
--- a/src/patches/patches.cpp
+++ b/src/patches/patches.cpp
@@ -84,7 +84,8 @@ std::vector<Cell> SparsePatch::get_cells() const
     else
     {
         const auto& multi_cell_patch = std::get<MultipleCellsOccupiedByPatch>(cells);
-        std::vector<Cell> out_cells{multi_cell_patch.sub_cells.size()};
+        std::vector<Cell> out_cells;
+        out_cells.reserve(multi_cell_patch.sub_cells.size());
         for (const auto& cell: multi_cell_patch.sub_cells)
         {
             out_cells.push_back(cell.cell);
-- 
2.43.0


From 9721225c42514058998492a2101469bfcf0c8399 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 13/52] fix: printing a patch with EDPC or Reserved activity
 threw

---
 src/patches/patches.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/patches/patches.cpp b/src/patches/patches.cpp
index 5235b6e..6bb1889 100644
--- a/src/patches/patches.cpp
+++ b/src/patches/patches.cpp
@@ -178,10 +178,12 @@ std::ostream& operator<<(std::ostream& os, const Patch& p)
 
         case PatchActivity::EDPC:
             os << "EDPC";
+            break;
 
         case PatchActivity::Reserved:
             os << "Reserved";
-        
+            break;
+
         default:
             LSTK_UNREACHABLE;
     }
-- 
2.43.0


From c6176b8f1583a1e055d14a430c222e8ccaad3102 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 14/52] fix: get_operating_qubits threw for a reset

---
 src/gates/gates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index f22577f..8f8eb32 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -169,8 +169,8 @@ tsl::ordered_set<QubitNum> get_operating_qubits(const Gate& gate)
                 }
             }, g.target_gate);
         },
-        [&](const auto&){
-            LSTK_UNREACHABLE;
+        [&](const Reset& g){
+            res.insert(g.target_qubit);
         }
     }, gate);
     return res;
-- 
2.43.0


From 126b1d3d070f99e656a53c14da26ca590a21cec8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 15/52] fix: rz, crz and reset gates were printed as text that
 is not OpenQASM, and without their sign

---
 src/gates/gates.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index 8f8eb32..622497e 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -187,7 +187,7 @@ namespace lsqecc {
 
 std::string print_pi_fraction(const Fraction& fraction)
 {
-    return lstk::cat(fraction.num,"*pi/",fraction.den);
+    return lstk::cat(fraction.is_negative ? "-" : "", fraction.num,"*pi/",fraction.den);
 }
 
 std::ostream& operator<<(std::ostream& os, const gates::BasicSingleQubitGate& gate)
@@ -220,7 +220,7 @@ std::ostream& operator<<(std::ostream& os, const gates::Gate& gate)
             }() << " q[" << gate.target_qubit << "];";
         },
         [&](const RZ& rz){
-            os << "rz("<<rz.pi_fraction.num<<"pi/"<<rz.pi_fraction.den<<") q["<<rz.target_qubit<<"];";
+            os << "rz(" << print_pi_fraction(rz.pi_fraction) << ") q["<<rz.target_qubit<<"];";
         },
         [&](const ControlledGate& ctrld){
             return std::visit(lstk::overloaded{
@@ -242,14 +242,16 @@ std::ostream& operator<<(std::ostream& os, const gates::Gate& gate)
                 },
                 [&](const RZ& rz){
                     os << "crz(";
-                    if(rz.pi_fraction.num != 1)
-                        os << rz.pi_fraction.num << "*pi";
-                    os <<"pi/"<<rz.pi_fraction.den << ") q[" << ctrld.control_qubit << "],q[" << rz.target_qubit << "];";
+                    if(rz.pi_fraction.num == 1 && !rz.pi_fraction.is_negative)
+                        os << "pi/" << rz.pi_fraction.den;
+                    else
+                        os << print_pi_fraction(rz.pi_fraction);
+                    os << ") q[" << ctrld.control_qubit << "],q[" << rz.target_qubit << "];";
                 },
             }, ctrld.target_gate);
         },
         [&](const Reset& reset){
-            os << "reset" << "q[" << reset.target_qubit << "]";
+            os << "reset " << reset.register_name << "[" << reset.target_qubit << "];";
         }
     }, gate);
 
-- 
2.43.0


From 3e63a123bf734053da1e66e14d0addba50edea8f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 16/52] fix: decomposing a controlled rz by a negative angle
 dropped its sign

---
 src/gates/gates.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index 622497e..2eb9ba6 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -22,21 +22,24 @@ std::vector<Gate> decompose_CRZ_gate(const ControlledGate &crz_gate, double rz_p
     std::vector<Gate> res;
     lstk::vector_extend(res, decompose(
             RZ{crz_gate.control_qubit, Fraction{rz_gate.pi_fraction.num,
-                                                rz_gate.pi_fraction.den * 2}},
+                                                rz_gate.pi_fraction.den * 2,
+                                              rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
     lstk::vector_extend(res, decompose(
             RZ{rz_gate.target_qubit, Fraction{rz_gate.pi_fraction.num,
-                                              rz_gate.pi_fraction.den * 2}},
+                                              rz_gate.pi_fraction.den * 2,
+                                              rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
     res.emplace_back(
             CNOT(rz_gate.target_qubit, crz_gate.control_qubit, crz_gate.cnot_type, crz_gate.cnot_ancilla_placement));
     lstk::vector_extend(res, decompose(
-            RZ{rz_gate.target_qubit, Fraction{-rz_gate.pi_fraction.num,
-                                              rz_gate.pi_fraction.den * 2}},
+            RZ{rz_gate.target_qubit, Fraction{rz_gate.pi_fraction.num,
+                                              rz_gate.pi_fraction.den * 2,
+                                              !rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
-- 
2.43.0


From 6a7201ca2e1b50f9cee33d90b942240a60459836 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 17/52] fix: rz gates by -pi/2 and -pi/4 were compiled as if by
 pi/2 and pi/4

---
 src/ls_instructions/ls_instruction_stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index a72b382..414831a 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -101,10 +101,10 @@ LSInstruction LSInstructionStreamFromGateStream::get_next_instruction()
             if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 1)
                 next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::Z}}});
             else if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 2)
-                next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::S}}});
+                next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::S, rz_gate->pi_fraction.is_negative}}});
             else if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 4)
             {
-                auto instructions = instruction_generator_.make_t_gate_instructions(rz_gate->target_qubit);
+                auto instructions = instruction_generator_.make_t_gate_instructions(rz_gate->target_qubit, rz_gate->pi_fraction.is_negative);
                 lstk::queue_extend(next_instructions_, instructions);
             }
 
-- 
2.43.0


From baaf2923c39483c9228b74a74cea241ad21fa9df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 18/52] fix: the default ancilla placement missed the first
 gate, and outlived the run that set it

---
 src/pipelines/slicer.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index ac3cd89..3aa7334 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -379,6 +379,16 @@ namespace lsqecc
         if (parser.exists("notwists"))
             sgate_mode = SGateMode::Catalytic;
 
+        // Choose the default ancilla placement before reading any gate, since gates take it when they are parsed.
+        // Of the generated layouts, only the edpc one provides no ancilla location
+        const auto* auto_layout_choice = std::get_if<AutoLayoutMode>(&layout_mode);
+        const bool layout_provides_ancilla_location = auto_layout_choice ?
+                *auto_layout_choice != AutoLayoutMode::Edpc :
+                !std::get<std::unique_ptr<LayoutFromSpec>>(layout_mode)->ancilla_location().empty();
+        gates::ControlledGate::default_ancilla_placement = layout_provides_ancilla_location ?
+                gates::CNOTAncillaPlacement::USE_DEDICATED_CELL :
+                gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
+
         IdGenerator id_generator;
         std::unique_ptr<LSInstructionStream> instruction_stream;
         std::unique_ptr<GateStream> gate_stream;
@@ -514,12 +524,6 @@ namespace lsqecc
             }
         }
 
-        // Override the choice of ancilla placements when no location is provided
-        if(layout->ancilla_location().empty())
-        {
-            gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
-        }
-
         if (!pipeline_mode_validity_checker)
             throw std::runtime_error("PipelineMode::EDPC only valid when paired with (default or 1-lane condensed) EDPC layout and CompilationMode::Local.");
 
-- 
2.43.0


From fb0697674949e4d084cd0a14fc875ad6fb04a094 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 19/52] fix: the first id generated for LLI input was read past
 the end of the set of core qubits

---
 src/pipelines/slicer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 3aa7334..1444fe3 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -396,8 +396,8 @@ namespace lsqecc
         if (input_format == InputFormat::LLI)
         {
             instruction_stream = std::make_unique<LSInstructionStreamFromFile>(input_file_stream.get());
-            id_generator.set_start(*std::max(instruction_stream->core_qubits().begin(),
-                                             instruction_stream->core_qubits().end()));
+            id_generator.set_start(*std::max_element(instruction_stream->core_qubits().begin(),
+                                             instruction_stream->core_qubits().end()) + 1);
             if( print_dag_mode == PrintDagMode::Input )
             {
                 auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
-- 
2.43.0


From bab0fe32c07cbd3dd66948ae1aaf18ab5af47b8b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 20/52] fix: the documented output format noprogress was
 refused

---
 src/pipelines/slicer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 1444fe3..9b05168 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -300,7 +300,7 @@ namespace lsqecc
             auto mode_arg = parser.get<std::string>("f");
             if (mode_arg=="progress")
                 output_format_mode = OutputFormatMode::Progress;
-            else if (mode_arg=="noprogres")
+            else if (mode_arg=="noprogress")
                 output_format_mode = OutputFormatMode::NoProgress;
             else if (mode_arg=="machine")
                 output_format_mode = OutputFormatMode::Machine;
-- 
2.43.0


From 384ad854bf68d331a5788ba47acd562f8857e78c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:46:00 +0000
Subject: [PATCH 21/52] fix: a computation without slices was written as ],
 which is not JSON

---
 src/pipelines/slicer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 9b05168..2287284 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -688,7 +688,11 @@ namespace lsqecc
         }
         
         if(print_slices)
+        {
+            if(is_first_slice)
+                bulk_output_stream.get() << "[";
             bulk_output_stream.get() << "]" <<std::endl;
+        }
         if (lli_print_mode == LLIPrintMode::Sliced)
             bulk_output_stream.get() << std::endl;
 
-- 
2.43.0


From 86678a8b61ccceab1d165429bb98e8fdcec2685d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:49:38 +0000
Subject: [PATCH 22/52] fix: a patch with both operators exposed was taken to
 expose neither after a rotation

---
 src/layout/dynamic_layouts/determine_exposed_operators.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/layout/dynamic_layouts/determine_exposed_operators.cpp b/src/layout/dynamic_layouts/determine_exposed_operators.cpp
index efc6ddd..2ed5734 100644
--- a/src/layout/dynamic_layouts/determine_exposed_operators.cpp
+++ b/src/layout/dynamic_layouts/determine_exposed_operators.cpp
@@ -13,8 +13,7 @@ bool RotatableSingleQubitPatchExposedOperators::is_exposed(const PauliOperator o
 
 void RotatableSingleQubitPatchExposedOperators::rotate()
 {
-    x_exposed = !x_exposed;
-    z_exposed = !z_exposed;
+    std::swap(x_exposed, z_exposed);
 }
 
 tsl::ordered_map<PatchId, RotatableSingleQubitPatchExposedOperators> determine_exposed_core_operators(
-- 
2.43.0


From 717092b22c76c425d70b94c6ae6cbe435a19b2fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 23/52] fix: rotations asked for in the input were not taken
 into account when injecting rotations

---
 src/ls_instructions/boundary_rotation_injection_stream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ls_instructions/boundary_rotation_injection_stream.cpp b/src/ls_instructions/boundary_rotation_injection_stream.cpp
index 4fb3a31..6931294 100644
--- a/src/ls_instructions/boundary_rotation_injection_stream.cpp
+++ b/src/ls_instructions/boundary_rotation_injection_stream.cpp
@@ -79,7 +79,12 @@ LSInstruction BoundaryRotationInjectionStream::get_next_instruction()
         } 
 
     }
-    
+    else if (const auto* rotate = std::get_if<RotateSingleCellPatch>(&new_instruction.operation))
+    {
+        if (exposed_operators_.contains(rotate->target))
+            exposed_operators_.at(rotate->target).rotate();
+    }
+
     next_instructions_.push(new_instruction);
 
     return lstk::queue_pop(next_instructions_);
-- 
2.43.0


From 9ff7ef310fc87c1e12fb1044f96f0c24e2ae908b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:21:59 +0000
Subject: [PATCH 24/52] fix: the boost graph search routed through occupied
 cells and not through free ones

---
 .../graph_search/boost_based_graph_search.cpp    | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/layout/graph_search/boost_based_graph_search.cpp b/src/layout/graph_search/boost_based_graph_search.cpp
index d5e2999..3c903a4 100644
--- a/src/layout/graph_search/boost_based_graph_search.cpp
+++ b/src/layout/graph_search/boost_based_graph_search.cpp
@@ -61,7 +61,7 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
         {
             Cell current{row_idx, col_idx};
             vertices.push_back(make_vertex(current));
-            if (!slice.is_cell_free(current))
+            if (slice.is_cell_free(current))
                 for (const Cell& neighbour: current.get_neigbours_within_bounding_box_inclusive({0, 0}, furthest_cell))
                     if (slice.is_cell_free(neighbour))
                         edges.emplace_back(make_vertex(neighbour), make_vertex(current));
@@ -71,15 +71,19 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
 
     // Add source
     const auto source_cell = *slice.get_cell_by_id(source);
+    const auto target_cell = *slice.get_cell_by_id(target);
     for (Cell neighbour: slice.get_neigbours_within_slice(source_cell))
     {
-        if (slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
+        if (!slice.have_boundary_of_type_with(source_cell, neighbour, source_op)) continue;
+
+        // The only occupied cell to go to from the source is the target, if it touches it with the right boundary
+        if (slice.is_cell_free(neighbour)
+            || (neighbour == target_cell && slice.have_boundary_of_type_with(target_cell, source_cell, target_op)))
             edges.emplace_back(make_vertex(source_cell), make_vertex(neighbour));
 
     }
 
     // Add target
-    const auto target_cell = *slice.get_cell_by_id(target);
 
     // This means we are trying to do an S-gate/twist measurement so we artificially add a new source coinciding
     // with the existing one
@@ -88,11 +92,13 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
 
     for (Cell neighbour: slice.get_neigbours_within_slice(target_cell))
     {
-        if (slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
+        if (slice.is_cell_free(neighbour) && slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
             edges.emplace_back(make_vertex(neighbour), target_vertex);
     }
 
-    Graph g{edges.begin(), edges.end(), vertices.size()};
+    // Every step costs the same
+    std::vector<int> weights(edges.size(), 1);
+    Graph g{edges.begin(), edges.end(), weights.begin(), std::max<size_t>(vertices.size(), target_vertex+1)};
 
     property_map<Graph, vertex_predecessor_t>::type p
             = get(vertex_predecessor, g);
-- 
2.43.0


From 879207f13cbe228eed35eeafef6d372ee016b3d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 25/52] fix: a reserved cell spawned a magic state on top of
 the one being rotated there

---
 src/patches/dense_patch_computation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index da43fae..02ab76f 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -130,8 +130,8 @@ void advance_slice(DenseSlice& slice, const Layout& layout)
 
             if (slice.time_to_next_magic_state_by_distillation_region[reserved_cell_index] == 0)
             {
-                if ((slice.patch_at(cell)->type != PatchType::PreparedState) &&
-                    (slice.patch_at(cell)->type != PatchType::Qubit))
+                // A bound state may be in use here, for example by a rotation
+                if (slice.patch_at(cell)->type == PatchType::Distillation)
                 {
                     SparsePatch magic_state_patch = LayoutHelpers::basic_square_patch(cell, std::nullopt, "Magic State");
                     magic_state_patch.type = PatchType::PreparedState;
-- 
2.43.0


From 340363c68621ac53b8c480ea750f47ee74bd8922 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 26/52] fix: a patch was rotated in the slice in which it was
 being merged or measured

---
 src/patches/dense_patch_computation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 02ab76f..4b2c83b 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1272,6 +1272,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             slice.patch_at(target_cell)->activity = PatchActivity::None;
         }
 
+        if (slice.patch_at(target_cell)->is_active())
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", rotation->target, " is active")), {}};
+
         BusyRegion rotation_instruction{single_patch_rotation_a_la_litinski(slice.patch_at(target_cell)->to_sparse_patch(target_cell), *free_neighbour)};
 
         slice.patch_at(target_cell) = std::nullopt;
-- 
2.43.0


From 5a650eee033449db5ec99e84b3f2bdb7cb4f2321 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 27/52] fix: binding a Y state read the cell of one that was
 measured and is gone

---
 src/patches/dense_patch_computation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 4b2c83b..aca1332 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1343,7 +1343,7 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                 double dist;
                 for (const Cell& cell : layout.predistilled_y_states())
                 {
-                    if (!slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
+                    if (slice.patch_at(cell) && !slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
                     {
                         dist = abs(cell.col - slice.get_cell_by_id(yr->near_patch).value().col) + abs(cell.row - slice.get_cell_by_id(yr->near_patch).value().row);
                         if (dist < min_dist)
-- 
2.43.0


From cf0fb55a492ca97e66a1b1972e2b63ae2c309579 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:39:09 +0000
Subject: [PATCH 28/52] fix: the wave scheduler kept using dependents after the
 records that hold them had moved

---
 src/scheduler/wave_scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler/wave_scheduler.cpp b/src/scheduler/wave_scheduler.cpp
index 1b2300b..09f042e 100644
--- a/src/scheduler/wave_scheduler.cpp
+++ b/src/scheduler/wave_scheduler.cpp
@@ -173,7 +173,7 @@ size_t WaveScheduler::schedule_instructions(const std::vector<InstructionID>& in
 	
 void WaveScheduler::schedule_dependent_instructions(InstructionID instruction_id, const std::vector<LSInstruction>& followup_instructions, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate)
 {
-	auto& dependents = records_[instruction_id].dependents;
+	auto dependents = records_[instruction_id].dependents; // A copy: scheduling adds records, which moves them
 	
 	if (followup_instructions.empty())
 	{
-- 
2.43.0


From 5818530c7321526a7ab7ffdd68be818e57c51da6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:47:34 +0000
Subject: [PATCH 29/52] fix: the patches an instruction depends on left out the
 one it places a patch next to

---
 src/ls_instructions/ls_instructions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ls_instructions/ls_instructions.cpp b/src/ls_instructions/ls_instructions.cpp
index 4f70222..c515324 100644
--- a/src/ls_instructions/ls_instructions.cpp
+++ b/src/ls_instructions/ls_instructions.cpp
@@ -20,6 +20,7 @@ tsl::ordered_set<PatchId> LSInstruction::get_operating_patches() const
         },
         [&](const PatchInit& op){
             ret.insert(op.target);
+            if(op.place_next_to) ret.insert(op.place_next_to->target);
         },
         [&](const BellPairInit& op) {
             ret.insert(op.side1);
@@ -29,6 +30,7 @@ tsl::ordered_set<PatchId> LSInstruction::get_operating_patches() const
         },
         [&](const MagicStateRequest& op){
             ret.insert(op.target);
+            ret.insert(op.near_patch);
         },
         [&](const YStateRequest& op){
             ret.insert(op.target);
-- 
2.43.0


From 819c692662c090e3b1c60a9e16f86a895549cffa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:48:02 +0000
Subject: [PATCH 30/52] fix: asking for a patch next to one that is being
 rotated threw instead of waiting

---
 src/patches/dense_patch_computation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index aca1332..5a34f5d 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -856,6 +856,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
     }
     else if (const auto* init = std::get_if<PatchInit>(&instruction.operation))
     {
+        if (init->place_next_to && !slice.has_patch(init->place_next_to->target))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", init->place_next_to->target, " not on lattice")), {}};
+
         auto location= init->place_next_to ?
                   place_ancilla_next_to(slice, init->place_next_to->target, init->place_next_to->op)
                 : find_free_ancilla_location(layout, slice);
@@ -1288,6 +1291,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         const auto& d_times = layout.distillation_times();
         if (!d_times.size()) throw std::logic_error("No distillation times");
 
+        if (!slice.has_patch(mr->near_patch))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", mr->near_patch, " not on lattice")), {}};
+
         if (slice.magic_states.size()>0)
         {
             std::optional<Cell> min_cell;
@@ -1330,6 +1336,8 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         // Otherwise, bind a new or existing Y state
         else 
         {
+            if (!slice.has_patch(yr->near_patch))
+                return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", yr->near_patch, " not on lattice")), {}};
 
             // Use pre-distilled y states if there are any 
 
-- 
2.43.0


From d41d1ccc3530c8b9d00d0617575df694f030e9d2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 31/52] fix: a local joint measurement of operators that do not
 touch was carried out instead of refused

---
 src/patches/dense_patch_computation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 5a34f5d..0bf3167 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -831,12 +831,12 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             if (((b1.boundary_type == BoundaryType::Rough) && (source_op != PauliOperator::X)) ||
                 ((b1.boundary_type == BoundaryType::Smooth) && (source_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
             if (((b2.boundary_type == BoundaryType::Rough) && (target_op != PauliOperator::X)) ||
                 ((b2.boundary_type == BoundaryType::Smooth) && (target_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
 
             // Apply TwoPatchMeasure local instruction
-- 
2.43.0


From 9bc8b62efaf4a3519d24dab06e9935f33f249bfe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 32/52] fix: an error about cells that are not neighbours lost
 its type and text

---
 include/lstk/lstk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 0441319..9a1d6e0 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -312,8 +312,8 @@ struct pair_hash
 
 // Optional helpers
 
-template<class T>
-T get_or_throw(const std::optional<T>& opt, const std::exception& e)
+template<class T, class Exception>
+T get_or_throw(const std::optional<T>& opt, const Exception& e)
 {
     if(opt.has_value())
         return opt.value();
-- 
2.43.0


From 9195785c9a17fe6e26ebd28cb9063e597f2bbbde Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 33/52] fix: operation ids depended on the computations made
 before in the same process

---
 src/patches/dense_patch_computation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 0bf3167..501fd50 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1648,6 +1648,7 @@ DensePatchComputationResult run_through_dense_slices(
 {
 
     DensePatchComputationResult res;
+    multi_body_measurement_op_id_counter = 1;
 
     // TODO move this out of here and into the pipeline, if possible. (might have to also take res out)
     auto start = lstk::now();
-- 
2.43.0


From afab4fce8cb39eb4e9b3b77f87cfeb17ad8f9bbe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:56:06 +0000
Subject: [PATCH 34/52] fix: --condensed given without a value was ignored

---
 src/pipelines/slicer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 2287284..6a3e63a 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -485,7 +485,7 @@ namespace lsqecc
                     num_lanes = parser.get<size_t>("numlanes");
                 
                 if(parser.exists("condensed"))
-                    condensed = parser.get<bool>("condensed");
+                    condensed = parser.get<std::string>("condensed").empty() || parser.get<bool>("condensed");
                 
                 if ((pipeline_mode == PipelineMode::EDPC) &&
                     (compile_mode == CompilationMode::Local) &&
-- 
2.43.0


From 31c148e0f7863e7df4a701e9fc2fc4ac3cceee06 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 35/52] fix: the error met by a graceful run was printed into
 the slices

---
 src/patches/dense_patch_computation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 501fd50..b7b116b 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1733,8 +1733,8 @@ DensePatchComputationResult run_through_dense_slices(
         catch (const std::exception& e)
         {
 
-            std::cout << "Encountered exception: " << e.what() << std::endl;
-            std::cout << "Halting slicing" << std::endl;
+            std::cerr << "Encountered exception: " << e.what() << std::endl;
+            std::cerr << "Halting slicing" << std::endl;
         }
     }
     else
-- 
2.43.0


From 721f4d0ba3bd048220caadf6a2f4d62db3cd06e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:16:21 +0000
Subject: [PATCH 36/52] fix: popping a head did not make its proximate
 dependants heads

---
 include/lsqecc/dag/dependency_dag.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index b9f44d5..f7a9d75 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -81,6 +81,15 @@ struct DependencyDag
         Instruction instruction = std::move(instructions_.at(label));
         instructions_.erase(label);
 
+        for(label_t successor: graph_.successors(label))
+        {
+            if(proximate_dependencies_.contains({label, successor}))
+            {
+                proximate_heads_.insert(successor);
+                proximate_dependencies_.erase({label, successor});
+            }
+        }
+
         for(label_t predecessor: graph_.predecessors(label))
         {
             if(proximate_dependencies_.contains({predecessor, label}))
-- 
2.43.0


From 87c7ee850cdc3b83c9ef3ba606a9a9a247d9fb42 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:16:21 +0000
Subject: [PATCH 37/52] fix: expanding an instruction skipped some of its
 proximate dependencies

---
 include/lsqecc/dag/dependency_dag.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index f7a9d75..938824b 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -127,19 +127,12 @@ struct DependencyDag
         
 
         // Now do the proximity bookkeeping for the extremes of the replacement
-        for (auto&[from, to]: proximate_dependencies_)
-        {
-            if (from == target)
-            {
-                proximate_dependencies_.erase({from, to});
-                proximate_dependencies_.insert({new_lables.back(), to});
-            }
-            if (to == target)
-            {
-                proximate_dependencies_.erase({from, to});
-                proximate_dependencies_.insert({from, new_lables.front()});
-            }
-        }
+        SetOfPairs<label_t, label_t> rewired_proximate_dependencies;
+        for (const auto&[from, to]: proximate_dependencies_)
+            rewired_proximate_dependencies.insert({
+                from == target ? new_lables.back() : from,
+                to == target ? new_lables.front() : to});
+        proximate_dependencies_ = std::move(rewired_proximate_dependencies);
 
         if (proximate_heads_.contains(target))
         {
-- 
2.43.0


From 713d99b9364d13aa28ae8fa3daa2d556919eebf7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:16:21 +0000
Subject: [PATCH 38/52] fix: removing an edge that does not exist erased past
 the end

---
 src/dag/directed_graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dag/directed_graph.cpp b/src/dag/directed_graph.cpp
index 2b4155c..b0664a5 100644
--- a/src/dag/directed_graph.cpp
+++ b/src/dag/directed_graph.cpp
@@ -30,6 +30,9 @@ void DirectedGraph::remove_edge(label_t from, label_t to)
     if(!edges_.count(to))
         throw std::runtime_error("Cannot remove edge to non-existing node: " + std::to_string(to));
 
+    if(!edges_.at(from).count(to))
+        throw std::runtime_error("Cannot remove non-existing edge: " + std::to_string(from) + " -> " + std::to_string(to));
+
     edges_.at(from).erase(std::find(edges_.at(from).begin(), edges_.at(from).end(), to));
     back_edges_.at(to).erase(std::find(back_edges_.at(to).begin(), back_edges_.at(to).end(), from));
 }
-- 
2.43.0


From 3af92c220700798e22fe2872d542f0a7a7f0f120 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 39/52] fix: the table of rz(pi/2^n) sequences ran the first
 two together, so that every entry was off by one

---
 .../gates/pi_over_2_to_the_n_rz_gate_approximations.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp b/include/lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp
index 850fa9d..f72c736 100644
--- a/include/lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp
+++ b/include/lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp
@@ -10,9 +10,9 @@
 #include <array>
 
 
-constexpr std::array<std::string_view ,134> get_pi_over_2_to_the_n_rz_gate = {
+constexpr std::array<std::string_view ,135> get_pi_over_2_to_the_n_rz_gate = {
         // rz(pi/2^0)
-        "SS"
+        "SS",
         // rz(pi/2^1)
         "S",
         // rz(pi/2^2)  NOTE: Manually changed this to T
-- 
2.43.0


From 87812ce2d23be2af89e9b21a3c3927fc8eb4e933 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 40/52] fix: decomposing a controlled rotation with a huge
 denominator overflowed

---
 src/gates/gates.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index 2eb9ba6..aa9d4cf 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -3,6 +3,8 @@
 # include <lsqecc/gates/gate_approximator.hpp>
 
 #include <array>
+#include <limits>
+#include <stdexcept>
 
 namespace lsqecc::gates {
 
@@ -19,6 +21,9 @@ std::vector<Gate> decompose_CRZ_gate(const ControlledGate &crz_gate, double rz_p
      *      └─────────┘                └───────────┘└───┘└────────────┘└───┘
      */
 
+    if (rz_gate.pi_fraction.den > std::numeric_limits<ArbitraryPrecisionInteger>::max() / 2)
+        throw std::runtime_error{lstk::cat("Cannot decompose crz(", print_pi_fraction(rz_gate.pi_fraction), "): half the angle cannot be represented")};
+
     std::vector<Gate> res;
     lstk::vector_extend(res, decompose(
             RZ{crz_gate.control_qubit, Fraction{rz_gate.pi_fraction.num,
-- 
2.43.0


From eb93abfe81f24dbe8ab52e5bbefde1a6c08ddb4e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 41/52] fix: the rotation decomposing stream popped an empty
 queue when a rotation needs no gates

---
 .../gates/decompose_rotation_stream.hpp       |  2 +-
 src/gates/decompose_rotation_stream.cpp       | 23 ++++++++++---------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/lsqecc/gates/decompose_rotation_stream.hpp b/include/lsqecc/gates/decompose_rotation_stream.hpp
index 2ba070c..a757640 100644
--- a/include/lsqecc/gates/decompose_rotation_stream.hpp
+++ b/include/lsqecc/gates/decompose_rotation_stream.hpp
@@ -20,7 +20,7 @@ private:
 
     std::unique_ptr<GateStream> input_gate_stream_;
     double rz_precision_log_ten_negative_;
-    std::queue<gates::Gate> next_gates_;
+    mutable std::queue<gates::Gate> next_gates_;
 };
 
 }
diff --git a/src/gates/decompose_rotation_stream.cpp b/src/gates/decompose_rotation_stream.cpp
index 7674178..b80b69b 100644
--- a/src/gates/decompose_rotation_stream.cpp
+++ b/src/gates/decompose_rotation_stream.cpp
@@ -6,22 +6,23 @@ namespace lsqecc
 
 bool DecomposeRotationStream::has_next_gate() const
 {
-    return !next_gates_.empty() || input_gate_stream_->has_next_gate();
+    // A rotation may be approximated by no gates at all
+    while (next_gates_.empty() && input_gate_stream_->has_next_gate())
+    {
+        gates::Gate next_gate{input_gate_stream_->get_next_gate()};
+        if (gates::is_decomposed(next_gate))
+            next_gates_.push(next_gate);
+        else
+            for (const auto& gate : gates::decompose(next_gate, rz_precision_log_ten_negative_))
+                next_gates_.push(gate);
+    }
+    return !next_gates_.empty();
 }
 
 gates::Gate DecomposeRotationStream::get_next_gate()
 {
-    if(!next_gates_.empty()) return lstk::queue_pop(next_gates_);
+    if(!has_next_gate()) LSTK_UNREACHABLE;
 
-    if(!input_gate_stream_->has_next_gate()) LSTK_UNREACHABLE;
-
-    gates::Gate next_gate{input_gate_stream_->get_next_gate()};
-    if(gates::is_decomposed(next_gate)) return next_gate;
-
-    auto decomposed = gates::decompose(next_gate, rz_precision_log_ten_negative_);
-    for (const auto& gate : decomposed)
-        next_gates_.push(gate);
-    
     return lstk::queue_pop(next_gates_);
 }
 
-- 
2.43.0


From 67aad20fbb9325a9732b564ecde389768518a0c6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:33:29 +0000
Subject: [PATCH 42/52] fix: an error message quoting text that is not UTF-8
 made the in-process slicer throw

---
 src/pipelines/slicer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 6a3e63a..e5283a6 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -732,7 +732,8 @@ namespace lsqecc
                 {"exit_code", exit_code}
         };
 
-        return json_res.dump(3);
+        // Messages may quote parts of the input that are not valid UTF-8
+        return json_res.dump(3, ' ', false, nlohmann::json::error_handler_t::replace);
     }
 
 
-- 
2.43.0


From 2f8a37f1f3c55b29452dfe52934e80e2e089095c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:33:29 +0000
Subject: [PATCH 43/52] fix: slices were silently dropped when the output file
 could not be opened

---
 src/pipelines/slicer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index e5283a6..4171dd3 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -291,6 +291,11 @@ namespace lsqecc
         if(parser.exists("o"))
         {
             _ofstream_store = std::make_unique<std::ofstream>(parser.get<std::string>("o"));
+            if(_ofstream_store->fail())
+            {
+                err_stream << "Could not open output file: " << parser.get<std::string>("o") << std::endl;
+                return -1;
+            }
             bulk_output_stream = std::ref(*_ofstream_store);
         }
 
-- 
2.43.0


From 9fb1d2fe8700b681b49deecf1ad2a4f30f2bfe12 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:43:41 +0000
Subject: [PATCH 44/52] fix: a register of no qubits made the slicer abort
 instead of being refused

---
 src/ls_instructions/ls_instruction_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index 414831a..c0f1202 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -175,7 +175,8 @@ tsl::ordered_set<PatchId> core_qubits_from_gate_stream(GateStream& gate_stream)
     tsl::ordered_set<PatchId> core_qubits;
     for(PatchId id = 0; id <gate_stream.get_qreg().size; id++)
         core_qubits.insert(id);
-    assert(core_qubits.size());
+    if (core_qubits.empty())
+        throw std::runtime_error{"The quantum register must have at least one qubit"};
     return core_qubits;
 }
 
-- 
2.43.0


From 1baca002afc4cfd874a49766cf875382ffc392fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:52:10 +0000
Subject: [PATCH 45/52] fix: a pandora circuit was cut off at its first layer
 without supported gates

---
 include/lsqecc/gates/postgres_gate_stream.hpp |  1 +
 src/gates/postgres_gate_stream.cpp            | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/lsqecc/gates/postgres_gate_stream.hpp b/include/lsqecc/gates/postgres_gate_stream.hpp
index a78448e..4b8a122 100644
--- a/include/lsqecc/gates/postgres_gate_stream.hpp
+++ b/include/lsqecc/gates/postgres_gate_stream.hpp
@@ -29,6 +29,7 @@ private:
     const Qreg qreg_;
     mutable std::queue<gates::Gate> gates_in_layer_;
     mutable size_t current_layer_ = 0;
+    int64_t last_layer_ = -1;
 
     void advance_layer() const;
 };
diff --git a/src/gates/postgres_gate_stream.cpp b/src/gates/postgres_gate_stream.cpp
index dfeab53..5f041dc 100644
--- a/src/gates/postgres_gate_stream.cpp
+++ b/src/gates/postgres_gate_stream.cpp
@@ -54,6 +54,10 @@ PandoraPostgresGateStream::PandoraPostgresGateStream(std::string host, std::stri
 {
     db_->exec("CREATE INDEX IF NOT EXISTS idx_layered_lscom_layer ON layered_lscom(layer);");
     current_layer_++; // The first layer only has inits, so we skip it
+
+    auto r = db_->exec("select max(layered_lscom.layer) as max from layered_lscom;");
+    if (!r.empty() && !r.at(0).at("max").is_null())
+        last_layer_ = r.at(0).at("max").get<int64_t>();
 }
 
 using PostgresBigIntApprox = int64_t;
@@ -121,7 +125,8 @@ void PandoraPostgresGateStream::advance_layer() const {
 
 gates::Gate PandoraPostgresGateStream::get_next_gate()
 {
-    if (gates_in_layer_.empty()) advance_layer();
+    if (!has_next_gate())
+        throw std::runtime_error("No more gates in the pandora database");
 
     auto gate = gates_in_layer_.front();
     gates_in_layer_.pop();
@@ -130,9 +135,10 @@ gates::Gate PandoraPostgresGateStream::get_next_gate()
 
 bool PandoraPostgresGateStream::has_next_gate() const
 {
-    if (gates_in_layer_.empty())
+    // Some layers may hold no gates that we handle
+    while (gates_in_layer_.empty() && static_cast<int64_t>(current_layer_) <= last_layer_)
         advance_layer();
-    
+
     return !gates_in_layer_.empty();
 
 }
-- 
2.43.0


From 67b7fdeee3504cbb702d37c63f1fd3e65914dc96 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 46/52] fix: a CNOT in the edpc pipeline whose second phase has
 no first layer was left unfinished

---
 src/patches/dense_patch_computation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index b7b116b..73d020d 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1168,7 +1168,7 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
 
                     // If this is the final phase, the instruction has been fully applied 
                     if ((phase == bell_cnot->local_instruction_sets.value().size() - 1) ||
-                        ((phase == 1) && (bell_cnot->local_instruction_sets.value()[2].size() == 0)))
+                        ((phase == 1) && (bell_cnot->local_instruction_sets.value()[2].empty()) && (bell_cnot->local_instruction_sets.value()[3].empty())))
                     {
                         return {nullptr, {}};
                     }
-- 
2.43.0


From d21e94556900c91f8d2e89fd380aa4a2c808135f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 47/52] fix: routes of the edpc pipeline that cross at
 neighbouring cells off a straight line stopped the program

---
 include/lsqecc/patches/dense_slice.hpp  |   4 +-
 src/patches/dense_patch_computation.cpp |  27 ++++-
 src/patches/dense_slice.cpp             | 128 +++++++++---------------
 3 files changed, 75 insertions(+), 84 deletions(-)

diff --git a/include/lsqecc/patches/dense_slice.hpp b/include/lsqecc/patches/dense_slice.hpp
index c9e76dc..f0cf812 100644
--- a/include/lsqecc/patches/dense_slice.hpp
+++ b/include/lsqecc/patches/dense_slice.hpp
@@ -72,9 +72,9 @@ struct DenseSlice : public Slice
 
     SurfaceCodeTimestep time_to_next_magic_state(size_t distillation_region_id) const override;
 
-    void flip_crossing_chain(const Cell& crossing_cell, CellDirection dir);
+    void flip_crossing_chain(const Cell& crossing_cell, const Cell& from);
 
-    BoundaryType mark_boundaries_for_crossing_cell(DensePatch& dp, const SingleCellOccupiedByPatch& p, const Cell& prev);
+    std::optional<BoundaryType> mark_boundaries_for_crossing_cell(DensePatch& dp, const SingleCellOccupiedByPatch& p, const Cell& prev);
 };
 
 }
diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 73d020d..060094b 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -192,9 +192,17 @@ void stitch_boundaries(
     }
 }
 
-void mark_routing_region(DenseSlice& slice, RoutingRegion& routing_region, PatchActivity activity)
+// Returns false, leaving the slice as it was, if the edges of an EDPC route cannot be labelled consistently with the routes that it crosses
+bool mark_routing_region(DenseSlice& slice, RoutingRegion& routing_region, PatchActivity activity)
 {
 
+    // What to go back to if the route cannot be labelled
+    std::optional<std::vector<DenseSlice::RowStore>> cells_before;
+    const auto crossing_vertices_before = slice.EDPC_crossing_vertices;
+    const size_t rough_boundaries_before = slice.marked_rough_boundaries_EDPC.size();
+    if (activity == PatchActivity::EDPC)
+        cells_before = slice.cells;
+
     // For purpose of EDPC
     BoundaryType current_label = BoundaryType::Reserved_Label1;
 
@@ -223,7 +231,15 @@ void mark_routing_region(DenseSlice& slice, RoutingRegion& routing_region, Patch
                 }
 
                 // Update boundaries of patch at crossing vertex, making sure that the new edges have the opposite label as the old edges
-                current_label = slice.mark_boundaries_for_crossing_cell(patch.value(), occupied_cell, *prev_cell);
+                const auto label = slice.mark_boundaries_for_crossing_cell(patch.value(), occupied_cell, *prev_cell);
+                if (!label.has_value())
+                {
+                    slice.cells = *cells_before;
+                    slice.EDPC_crossing_vertices = crossing_vertices_before;
+                    slice.marked_rough_boundaries_EDPC.erase(slice.marked_rough_boundaries_EDPC.begin() + rough_boundaries_before, slice.marked_rough_boundaries_EDPC.end());
+                    return false;
+                }
+                current_label = *label;
             }
 
             // Otherwise, we check whether this is the control or target qubit and add appropriate boundaries if so
@@ -285,6 +301,8 @@ void mark_routing_region(DenseSlice& slice, RoutingRegion& routing_region, Patch
         counter++;
         prev_cell = &occupied_cell.cell;
     }
+
+    return true;
 }
 
 void clear_routing_region(DenseSlice& slice, const RoutingRegion& routing_region)
@@ -978,7 +996,10 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                                         .right= {BoundaryType::None, false}},
                                         slice.get_cell_by_id(bell_cnot->target).value()});
 
-                    mark_routing_region(slice, *routing_region, PatchActivity::EDPC);      
+                    if (!mark_routing_region(slice, *routing_region, PatchActivity::EDPC))
+                    {
+                        return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Route conflicts with those it crosses in EDPC")), {}};
+                    }
 
                     // Store routing region within the instruction (importantly, boundaries of cells in this routing region object have not been re-labeled!)
                     bell_cnot->route = std::move(routing_region);
diff --git a/src/patches/dense_slice.cpp b/src/patches/dense_slice.cpp
index 6a1d72e..53f84a1 100644
--- a/src/patches/dense_slice.cpp
+++ b/src/patches/dense_slice.cpp
@@ -272,72 +272,54 @@ SurfaceCodeTimestep DenseSlice::time_to_next_magic_state(size_t distillation_reg
     return time_to_next_magic_state_by_distillation_region[distillation_region_id];
 }
 
-// Recursively flip all boundaries for an input crossing cell in EDPC. 'dir' is the direction that we came from.
-void DenseSlice::flip_crossing_chain(const Cell& crossing_cell, CellDirection dir)
+// Flip all boundaries of an input crossing cell in EDPC, and of all crossing cells connected to it. 'from' is the neighbor that we came from (the boundary with it has already been flipped).
+void DenseSlice::flip_crossing_chain(const Cell& crossing_cell, const Cell& from)
 {
     if (!EDPC_crossing_vertices.count(crossing_cell))
         throw std::invalid_argument("DenseSlice::flip_crossing_chain: input cell must be a crossing cell.");
 
-    // Get associated patch
-    std::optional<DensePatch>& patch = patch_at(crossing_cell);
-    if (patch.has_value())
-    {  
-        
-        // Get boundaries and neighbors
-        std::vector<Boundary*> boundary_ptrs = {&patch.value().boundaries.top, &patch.value().boundaries.bottom, &patch.value().boundaries.left, &patch.value().boundaries.right};
-        std::vector<std::optional<Cell>> neighbors;
-        std::vector<CellDirection> cell_directions = {CellDirection::top, CellDirection::bottom, CellDirection::left, CellDirection::right};
-        for (CellDirection dir_ : cell_directions)
-            neighbors.push_back(get_directional_neighbor_within_slice(crossing_cell, dir_));
-
-        // Loop over boundaries
-        size_t counter = 0;
-        for (Boundary* boundary : boundary_ptrs)
-        {
-            if (neighbors[counter].has_value())
-            {
-                if ((boundary->boundary_type == BoundaryType::Reserved_Label1) || (boundary->boundary_type == BoundaryType::Reserved_Label2))   
-                {
+    std::set<Cell> visited{from, crossing_cell};
+    std::set<std::pair<Cell, Cell>> flipped{{crossing_cell, from}, {from, crossing_cell}};
+    std::vector<Cell> to_flip{crossing_cell};
 
-                    // Flip boundary and conjugate boundary except those corresp. to the neighbor we came from (those should have already been flipped)
-                    if (cell_directions[counter] != (!dir))
-                    {
-                        boundary->boundary_type = !boundary->boundary_type;
-                        auto conjugate_bdry = get_boundary_between(neighbors[counter].value(), crossing_cell);
-                        if (conjugate_bdry.has_value()) {
-                            conjugate_bdry.value().get().boundary_type = !conjugate_bdry.value().get().boundary_type;
-                        } 
-                    }
+    while (!to_flip.empty())
+    {
+        const Cell cell = to_flip.back();
+        to_flip.pop_back();
 
-                } 
+        if (!patch_at(cell).has_value())
+            throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have an associated dense patch on the slice.");
 
-                else
-                {
-                    throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have all reserved boundaries.");
-                } 
-            }
+        for (CellDirection dir : {CellDirection::top, CellDirection::bottom, CellDirection::left, CellDirection::right})
+        {
+            const auto neighbor = get_directional_neighbor_within_slice(cell, dir);
+            if (!neighbor.has_value())
+                throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must be interior and have four neighbors.");
 
-            else
+            if (flipped.insert({cell, *neighbor}).second)
             {
-                throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must be interior and have four neighbors.");
+                flipped.insert({*neighbor, cell});
+
+                // Flip boundary and conjugate boundary
+                Boundary& boundary = get_boundary_between_or_fail(cell, *neighbor).get();
+                if ((boundary.boundary_type != BoundaryType::Reserved_Label1) && (boundary.boundary_type != BoundaryType::Reserved_Label2))
+                    throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have all reserved boundaries.");
+                boundary.boundary_type = !boundary.boundary_type;
+
+                auto conjugate_bdry = get_boundary_between(*neighbor, cell);
+                if (conjugate_bdry.has_value())
+                    conjugate_bdry.value().get().boundary_type = boundary.boundary_type;
             }
 
-            counter++;
+            // The labels of a crossing cell depend on each other, so the flip carries on to the neighbors that are themselves crossing cells
+            if (EDPC_crossing_vertices.count(*neighbor) && visited.insert(*neighbor).second)
+                to_flip.push_back(*neighbor);
         }
     }
-
-    else
-    {
-        throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have an associated dense patch on the slice.");
-    }
-
-    // Assuming consistency conditions from mark_boundaries_for_crossing_cell have been met and remain unchanged for every crossing cell, we only need to propagate linearly and flip all boundaries
-    std::optional<Cell> next_crossing_cell = get_directional_neighbor_within_slice(crossing_cell, dir);
-    if (next_crossing_cell.has_value() && EDPC_crossing_vertices.count(next_crossing_cell.value()))
-        flip_crossing_chain(next_crossing_cell.value(), dir);
 }
 
-BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const SingleCellOccupiedByPatch& p, const Cell& prev) 
+// Returns nothing if the labels around the crossing cell cannot be made consistent
+std::optional<BoundaryType> DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const SingleCellOccupiedByPatch& p, const Cell& prev) 
 {
 
     // Get pointers to boundary labels (so that we can loop over them)
@@ -352,11 +334,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
     // Check if the previous cell routed through was a crossing cell
     bool prev_cell_was_crossing_vertex = EDPC_crossing_vertices.count(prev);
 
-    // Create tracker for number of crossing neighbors
-    size_t num_crossing_neighbors = 0;
-    if (prev_cell_was_crossing_vertex)
-        num_crossing_neighbors++;
-
     // Get boundary type with the previous cell
     auto prev_bdry = get_boundary_between(p.cell, prev);
 
@@ -370,7 +347,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
 
     // Loop over boundary pointers
     size_t counter = 0;
-    std::vector<size_t> crossing_indices;
     Boundary* tmp = nullptr;
     size_t num_reserved_edges_found = 0;
     for (Boundary* boundary : boundary_ptrs) 
@@ -385,12 +361,10 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
                 // Track # found reserved edges for later consistency checks
                 num_reserved_edges_found++;
 
-                // Ignore the previously-routed cell but track its index
+                // Ignore the previously-routed cell
                 if (neighbors[counter].value() == prev)
                 {
-                    if (prev_cell_was_crossing_vertex) 
-                        crossing_indices.push_back(counter);
-                    else
+                    if (!prev_cell_was_crossing_vertex) 
                         throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: previously-routed cell not in crossing vertices but its corresponding boundary already reserved.");
 
                     counter++;
@@ -418,9 +392,7 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
                         // If the corresp. neighbor is also a crossing cell then we (generically) need to propagate the boundary flip through a connected chain of crossings
                         if (EDPC_crossing_vertices.count(neighbors[counter].value()))
                         {
-                            crossing_indices.push_back(counter);
-                            num_crossing_neighbors++;
-                            flip_crossing_chain(neighbors[counter].value(), cell_directions[counter]);
+                            flip_crossing_chain(neighbors[counter].value(), p.cell);
                         }
 
                     }
@@ -447,9 +419,7 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
                     // If the corresp. neighbor is also a crossing cell then we (generically) need to propagate the boundary flip through a connected chain of crossings
                     if (EDPC_crossing_vertices.count(neighbors[counter].value()))
                     {
-                        crossing_indices.push_back(counter);
-                        num_crossing_neighbors++;
-                        flip_crossing_chain(neighbors[counter].value(), cell_directions[counter]);
+                        flip_crossing_chain(neighbors[counter].value(), p.cell);
                     }
 
                 }
@@ -474,18 +444,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
 
     } 
 
-    // Consistency check: this crossing vertex can only be adjacent to up to two other crossing vertices
-    if (num_crossing_neighbors > 2)
-        throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: a given crossing cell can only have two neighbors that are themselves crossing cells.");
-
-    // Consistency check: two neighboring crossing cells to a crossing cell must be across from each other
-    if (num_crossing_neighbors == 2)
-    {
-        assert(crossing_indices.size() == 2);
-        if (cell_directions[crossing_indices[0]] != (!cell_directions[crossing_indices[1]]))
-            throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: two neighboring crossing cells to a crossing cell must be across from one another.");
-    }
-
     // Consistency checks on number of reserved edges found
     if (num_reserved_edges_found == 4)
         throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: too many reserved edges found.");
@@ -499,6 +457,18 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
     else if (num_reserved_edges_found < 2)
         throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: too few reserved edges found (< 2).");
 
+    // Consistency check: the edges of the path being crossed must have the same label, and the edge we came through (if it is already reserved) the opposite one. This fails for some cycles of crossing cells.
+    counter = 0;
+    for (Boundary* boundary : boundary_ptrs)
+    {
+        if ((boundary->boundary_type == BoundaryType::Reserved_Label1) || (boundary->boundary_type == BoundaryType::Reserved_Label2))
+        {
+            if ((boundary->boundary_type == tmp->boundary_type) == (neighbors[counter].value() == prev))
+                return std::nullopt;
+        }
+        counter++;
+    }
+
     // The label that we place is always opposite the one present
     BoundaryType label_to_place = !tmp->boundary_type;
 
-- 
2.43.0


From a5ddc4cf431b99a7b1f936d9490f83ccd8d5e902 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:50:14 +0000
Subject: [PATCH 48/52] fix: the JavaScript types of slices did not describe
 the slicer's output

---
 npm/src/slices.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/npm/src/slices.ts b/npm/src/slices.ts
index 4664bfb..5b92c49 100644
--- a/npm/src/slices.ts
+++ b/npm/src/slices.ts
@@ -1,19 +1,20 @@
 type Orientation = "Top" | "Bottom" | "Left" | "Right";
-type EdgeType = "Solid" | "SolidStiched" | "Dashed" | "DashedStiched" | "AncillaJoin";
+type EdgeType = "None" | "Solid" | "SolidStiched" | "Dashed" | "DashedStiched" | "AncillaJoin";
 
 type VisualArrayCell = {
     edges: {
         [key in Orientation]: EdgeType;
     };
     patch_type: "Qubit" | "DistillationQubit" | "Ancilla";
-    test: string;
+    text: string;
+    operation_id?: string;
     activity: {
-        op: "I" | "X" | "Y" | "Z";
-        activity_type: "Unitary" | "Measurement";
+        activity_type: "Unitary" | "Measurement" | null;
     };
 };
 
-type Slice = Array<Array<VisualArrayCell>>;
+// Cells with no patch on them are null
+type Slice = Array<Array<VisualArrayCell | null>>;
 type Slices = Array<Slice>;
 
 export type { Slices, Slice, VisualArrayCell };
-- 
2.43.0


From 6fc07c46ebb2d113be3bf5f95d42ad49b5ff2d10 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:03:48 +0000
Subject: [PATCH 49/52] fix: a Y state prepared beside its target blocked the
 edge it is measured with

---
 src/patches/dense_patch_computation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 060094b..a355896 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1422,6 +1422,11 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                         LocalInstruction::LocalLSInstruction local_instruction = {LocalInstruction::PrepareY{yr->target, z_neighbour.value()}};
                         yr->local_instruction = std::move(local_instruction);
                         InstructionApplicationResult r = try_apply_local_instruction(slice, local_instruction, layout, router);                       
+
+                        // A state beside the target must show it a Z edge too, or it blocks the very edge that it is to be measured with
+                        if (slice.get_boundary_between(z_neighbour.value(), target_cell)->get().boundary_type != BoundaryType::Smooth)
+                            slice.patch_at(z_neighbour.value())->boundaries.instant_rotate();
+
                         return {nullptr, {}};
                     }
 
-- 
2.43.0


From f0502d3d62902e7c592058b91a1df2969a7f9e09 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:48:25 +0000
Subject: [PATCH 50/52] fix: a patch made up for an S gate took an id the LLI
 program uses itself

---
 include/lsqecc/ls_instructions/id_generator.hpp            | 6 ++++++
 src/ls_instructions/catalytic_s_gate_injection_stream.cpp  | 2 ++
 src/ls_instructions/teleported_s_gate_injection_stream.cpp | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/include/lsqecc/ls_instructions/id_generator.hpp b/include/lsqecc/ls_instructions/id_generator.hpp
index 757e693..9600b5a 100644
--- a/include/lsqecc/ls_instructions/id_generator.hpp
+++ b/include/lsqecc/ls_instructions/id_generator.hpp
@@ -15,6 +15,12 @@ public:
         counter_ = start;
     }
 
+    // Never give this id, which something else uses
+    void keep_clear_of(PatchId id)
+    {
+        if(counter_ <= id) counter_ = id + 1;
+    }
+
     PatchId new_id()
     {
         return counter_++;
diff --git a/src/ls_instructions/catalytic_s_gate_injection_stream.cpp b/src/ls_instructions/catalytic_s_gate_injection_stream.cpp
index a463dab..e9eec6f 100644
--- a/src/ls_instructions/catalytic_s_gate_injection_stream.cpp
+++ b/src/ls_instructions/catalytic_s_gate_injection_stream.cpp
@@ -31,6 +31,8 @@ LSInstruction CatalyticSGateInjectionStream::get_next_instruction()
         throw std::logic_error{"CatalyticSGateInjectionStream: No more instructions from source"};
 
     LSInstruction new_instruction = source_->get_next_instruction();
+    for(PatchId id : new_instruction.get_operating_patches())
+        id_generator_.keep_clear_of(id); // an LLI program names patches of its own
     const auto* gate = std::get_if<SingleQubitOp>(&new_instruction.operation);
     if( gate && gate->op == SingleQubitOp::Operator::S && core_qubits().contains(gate->target))
     {
diff --git a/src/ls_instructions/teleported_s_gate_injection_stream.cpp b/src/ls_instructions/teleported_s_gate_injection_stream.cpp
index 50fa116..e3105f5 100644
--- a/src/ls_instructions/teleported_s_gate_injection_stream.cpp
+++ b/src/ls_instructions/teleported_s_gate_injection_stream.cpp
@@ -34,6 +34,8 @@ LSInstruction TeleportedSGateInjectionStream::get_next_instruction()
         throw std::logic_error{"TeleportedSGateInjectionStream: No more instructions from source"};
 
     LSInstruction new_instruction = source_->get_next_instruction();
+    for(PatchId id : new_instruction.get_operating_patches())
+        id_generator_.keep_clear_of(id); // an LLI program names patches of its own
     const auto* gate = std::get_if<SingleQubitOp>(&new_instruction.operation);
     if( gate && gate->op == SingleQubitOp::Operator::S && core_qubits().contains(gate->target))
     {
-- 
2.43.0


From 2d78bc64c26808af5a3ea55b28647ff83d27d792 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:32:07 +0000
Subject: [PATCH 51/52] fix: a run whose output could not be written ended as a
 success

---
 src/pipelines/slicer.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 4171dd3..f74a3bc 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -235,6 +235,18 @@ namespace lsqecc
             return 0;
         }
 
+        // The exit code for having written all the output, or not, for example to a full disk
+        const auto finish_output = [&err_stream](std::ostream& output) -> int
+        {
+            output.flush();
+            if (output.fail())
+            {
+                err_stream << "Could not write all of the output" << std::endl;
+                return -1;
+            }
+            return 0;
+        };
+
         DistillationOptions distillation_options = make_distillation_options(parser);
 
         LayoutMode layout_mode = AutoLayoutMode::Compact;
@@ -407,7 +419,7 @@ namespace lsqecc
             {
                 auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
                 dag.to_graphviz(out_stream);
-                return 0;
+                return finish_output(out_stream);
             }
         }
         else if (input_format == InputFormat::QASM)
@@ -429,7 +441,7 @@ namespace lsqecc
             {
                 auto dag = dag::full_dependency_dag_from_gate_stream(*gate_stream);
                 dag.to_graphviz(out_stream);
-                return 0;
+                return finish_output(out_stream);
             }
 
             gate_stream = std::make_unique<DecomposeRotationStream>(
@@ -550,12 +562,12 @@ namespace lsqecc
         if(lli_print_mode == LLIPrintMode::BeforeSlicing)
         {
             print_all_ls_instructions_to_string(out_stream, std::move(instruction_stream));
-            return 0;
+            return finish_output(out_stream);
         } else if (print_dag_mode == PrintDagMode::ProcessedLli)
         {
             auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
             dag.to_graphviz(out_stream);
-            return 0;
+            return finish_output(out_stream);
         }
 
         auto timeout = parser.exists("t") ?
@@ -701,7 +713,8 @@ namespace lsqecc
         if (lli_print_mode == LLIPrintMode::Sliced)
             bulk_output_stream.get() << std::endl;
 
-        return 0;
+        const int bulk_output_result = finish_output(bulk_output_stream.get());
+        return bulk_output_result != 0 ? bulk_output_result : finish_output(out_stream);
     }
 
 
-- 
2.43.0


From 3ae61a1102aeb24b704e454fa28d880fb6c3ae41 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:00:13 +0000
Subject: [PATCH 52/52] fix: a new patch could be given the id of one still on
 the lattice

---
 src/patches/dense_patch_computation.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index a355896..443c505 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -874,6 +874,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
     }
     else if (const auto* init = std::get_if<PatchInit>(&instruction.operation))
     {
+        if (slice.has_patch(init->target))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", init->target, " is already on lattice")), {}};
+
         if (init->place_next_to && !slice.has_patch(init->place_next_to->target))
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", init->place_next_to->target, " not on lattice")), {}};
 
@@ -904,6 +907,11 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         {
             if (!bell_init->counter.has_value())
             {
+                if (slice.has_patch(bell_init->side1))
+                    return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", bell_init->side1, " is already on lattice")), {}};
+                if (slice.has_patch(bell_init->side2))
+                    return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", bell_init->side2, " is already on lattice")), {}};
+
                 auto routing_region = router.find_routing_ancilla(slice, bell_init->loc1.target, bell_init->loc1.op, bell_init->loc2.target, bell_init->loc2.op);
                 if(!routing_region)
                 {
@@ -954,6 +962,12 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         if (!slice.has_patch(bell_cnot->target)) 
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", bell_cnot->target, " not on lattice")), {}};
         
+        // Halves may only be given ids that are free when the instruction begins
+        if (!bell_cnot->route.has_value() && !bell_cnot->counter_pairs.has_value())
+            for (const auto& side : {bell_cnot->side1, bell_cnot->side2})
+                if (slice.has_patch(side))
+                    return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", side, " is already on lattice")), {}};
+
         auto control_patch = slice.get_patch_by_id(bell_cnot->control);
         auto target_patch = slice.get_patch_by_id(bell_cnot->target);
         
@@ -1312,6 +1326,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         const auto& d_times = layout.distillation_times();
         if (!d_times.size()) throw std::logic_error("No distillation times");
 
+        if (slice.has_patch(mr->target))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", mr->target, " is already on lattice")), {}};
+
         if (!slice.has_patch(mr->near_patch))
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", mr->near_patch, " not on lattice")), {}};
 
-- 
2.43.0

