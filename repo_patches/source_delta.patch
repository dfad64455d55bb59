From 304c5c392901d3f96bda92ab8ef731529d13d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 01/66] fix: LEA with [R1 + R2] read a non-existent third
 operand

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 07bc03e..7f02513 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -676,7 +676,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
             assert(operands.size() == 2);
             address = Operand::supply(
                     Operand::supply(mem_.getMemoryRegisterRegister(), operands[0].getValue()),
-                    operands[2].getValue()
+                    operands[1].getValue()
             ).index();
         }
         else if (mem_.isMemoryRegisterOffsetRegister()) {
-- 
2.43.0


From 331d1d96d7c8330b46d970e9b96aa4062db3b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 02/66] fix: pending writes to one address no longer leave
 dangling references

---
 .../cpu/memory_writes_manager/memory_writes.cpp   |  4 ++--
 src/t86/cpu/memory_writes_manager/memory_writes.h | 15 +++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.cpp b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
index 9526ca3..2676d90 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.cpp
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
@@ -4,11 +4,11 @@
 #include <algorithm>
 
 namespace tiny::t86 {
-    std::vector<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
+    std::list<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
-    std::vector<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
+    std::list<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.h b/src/t86/cpu/memory_writes_manager/memory_writes.h
index 9edf239..d9f2fd3 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.h
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.h
@@ -1,8 +1,10 @@
 #pragma once
 
+#include <list>
 #include <utility>
 #include <optional>
 #include <set>
+#include <vector>
 
 #include "../../ram.h"
 #include "memory_write.h"
@@ -43,14 +45,15 @@ namespace tiny::t86 {
             return e.id() > i;
         }
 
-        // This vector is sorted using comp function, so that we can find writes
+        // This list is sorted using comp function, so that we can find writes
         // with id up to some value
-        // List would have slow lookup times, but better insertions
+        // It has to be a list, because references to the writes are kept by the
+        // MemoryWritesManager and they must stay valid when other writes to the
+        // same address are added or removed.
         // Set does not allow modifications of it's elements once inserted
-        // Might change to list in the future after some benchmarking
-        std::vector<MemoryWrite> writes_;
+        std::list<MemoryWrite> writes_;
 
-        std::vector<MemoryWrite>::iterator find(MemoryWrite::Id id);
-        std::vector<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
+        std::list<MemoryWrite>::iterator find(MemoryWrite::Id id);
+        std::list<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
     };
 }
-- 
2.43.0


From 2a20fe2b3a5e7a47bdca39d6e093370941b8cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:39 +0000
Subject: [PATCH 03/66] fix: division by zero and overflowing divisions raise
 an execution error instead of killing the VM

---
 src/t86/cpu/alu.cpp       | 23 +++++++++++++++++++++--
 src/t86/execution_error.h |  1 +
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 4132f59..eddb10a 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -1,9 +1,23 @@
 #include "alu.h"
+#include "../execution_error.h"
 
 #include <limits>
 #include <cmath>
 
 namespace tiny::t86::Alu {
+    namespace {
+        /// Division that has no result is an error of the executed program,
+        /// it must not take down the whole virtual machine.
+        void checkSignedDivision(int64_t x, int64_t y) {
+            if (y == 0) {
+                throw T86ExecutionError("Division by zero");
+            }
+            if (x == std::numeric_limits<int64_t>::min() && y == -1) {
+                throw T86ExecutionError("Division overflow");
+            }
+        }
+    }
+
     Flags::operator int64_t() const {
         return (signFlag << 0) | (zeroFlag << 1) | (carryFlag << 2) | (overflowFlag << 3);
     }
@@ -66,6 +80,9 @@ namespace tiny::t86::Alu {
     Result divide(int64_t x, int64_t y) {
         uint64_t ux = static_cast<uint64_t>(x);
         uint64_t uy = static_cast<uint64_t>(y);
+        if (uy == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
         uint64_t uresult = ux / uy;
         int64_t result = static_cast<int64_t>(uresult);
         bool signFlag = result < 0;
@@ -76,15 +93,16 @@ namespace tiny::t86::Alu {
     }
 
     Result signed_multiply(int64_t x, int64_t y) {
-        int64_t result = x * y;
+        int64_t result;
+        bool overflowFlag = __builtin_mul_overflow(x, y, &result);
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool carryFlag = false;
-        bool overflowFlag = x != 0 && y != 0 && x != result / y;
         return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
     }
 
     Result signed_divide(int64_t x, int64_t y) {
+        checkSignedDivision(x, y);
         int64_t result = x / y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
@@ -174,6 +192,7 @@ namespace tiny::t86::Alu {
     
     // TODO Remove after testing
     Result mod(int64_t x, int64_t y) {
+        checkSignedDivision(x, y);
         int64_t result = x % y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
diff --git a/src/t86/execution_error.h b/src/t86/execution_error.h
index e1a08b8..fb127fc 100644
--- a/src/t86/execution_error.h
+++ b/src/t86/execution_error.h
@@ -1,3 +1,4 @@
+#pragma once
 #include <exception>
 #include <string>
 
-- 
2.43.0


From 29b26dc1cb4f3a2071d815869df27bcf147a599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:39 +0000
Subject: [PATCH 04/66] fix: errors of speculated instructions are raised only
 if and when the instruction retires

---
 src/t86/cpu/reservation_station.cpp | 74 ++++++++++++++++++++++++++---
 src/t86/cpu/reservation_station.h   |  7 ++-
 2 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/src/t86/cpu/reservation_station.cpp b/src/t86/cpu/reservation_station.cpp
index e0ec5cf..b1b6d5a 100644
--- a/src/t86/cpu/reservation_station.cpp
+++ b/src/t86/cpu/reservation_station.cpp
@@ -148,13 +148,51 @@ namespace tiny::t86 {
     ReservationStation::ReservationStation(Cpu& cpu, std::size_t aluCnt, std::size_t maxEntriesCnt)
             : maxEntries_(maxEntriesCnt), cpu_(cpu), freeAlus_(aluCnt) {}
 
+    namespace {
+        /// Throws if the instruction works with a register that does not exist.
+        void checkRegisters(const std::vector<Operand>& operands, const std::vector<Product>& products,
+                            const RegisterAllocationTable& rat) {
+            for (const auto& product : products) {
+                if (product.isRegister()) {
+                    rat.translate(product.getRegister());
+                } else if (product.isFloatRegister()) {
+                    rat.translate(product.getFloatRegister());
+                }
+            }
+            for (Operand operand : operands) {
+                while (!operand.isFetched()) {
+                    Requirement requirement = operand.requirement();
+                    if (requirement.isRegisterRead()) {
+                        rat.translate(requirement.getRegisterRead());
+                        operand.supply(int64_t{0});
+                    } else if (requirement.isFloatRegisterRead()) {
+                        rat.translate(requirement.getFloatRegisterRead());
+                        operand.supply(0.0);
+                    } else {
+                        // Memory is read last, when all registers are known
+                        break;
+                    }
+                }
+            }
+        }
+    }
+
     void ReservationStation::add(const Instruction* instruction, std::size_t nextPc, std::size_t loggingId) {
         assert(entries_.size() < maxEntries_ && "Can't add another entry, max capacity was reached");
         cpu_.renameRegister(Register::ProgramCounter());
         cpu_.setRegister(Register::ProgramCounter(), nextPc);
         RegisterAllocationTable readRat = cpu_.getRat();
         std::vector<MemoryWrite::Id> memWriteIds;
-        for (const auto& product : instruction->produces()) {
+        std::vector<Product> products = instruction->produces();
+        std::exception_ptr exception;
+        try {
+            checkRegisters(instruction->operands(), products, readRat);
+        } catch (...) {
+            // Matters only if the instruction is not just speculated
+            exception = std::current_exception();
+            products.clear();
+        }
+        for (const auto& product : products) {
             if (product.isRegister()) {
                 Register reg = product.getRegister();
                 // We always rename program counter
@@ -180,6 +218,10 @@ namespace tiny::t86 {
 
         // Log as preparing status
         entry.logPreparing();
+        if (exception) {
+            entry.fault(exception);
+            return;
+        }
         // Check if ready (for some instructions that do not have any operands)
         entry.checkReady();
     }
@@ -275,7 +317,12 @@ namespace tiny::t86 {
         }
         // This is done "two-steps" because some instructions might have zero execution tickCount required
         if (remainingExecutionTime_ == 0) {
-            instruction_->execute(*this);
+            try {
+                instruction_->execute(*this);
+            } catch (...) {
+                // The instruction might be only speculated (see readMemory)
+                fault(std::current_exception());
+            }
             state_ = State::retiring;
             return true;
         }
@@ -302,11 +349,24 @@ namespace tiny::t86 {
         }
     }
 
+    void ReservationStation::Entry::fault(std::exception_ptr exception) {
+        if (!exception_) {
+            exception_ = exception;
+        }
+        state_ = State::retiring;
+    }
+
     void ReservationStation::Entry::retire() {
-        instruction_->retire(*this);
-        // delay throwing illegal read exception until we know that the instruction will be executed
-        if (memoryAccessException_) {
-            std::rethrow_exception(memoryAccessException_);
+        try {
+            // delay throwing exceptions until we know that the instruction will be executed
+            if (exception_) {
+                std::rethrow_exception(exception_);
+            }
+            instruction_->retire(*this);
+        } catch (...) {
+            // The faulting instruction and everything after it did not happen
+            cpu_.unrollSpeculation(readRat_);
+            throw;
         }
 
         // Handle single step with trapflags here
@@ -349,7 +409,7 @@ namespace tiny::t86 {
         try {
             return cpu_.readMemory(address, maxWriteId_);
         } catch(...) {
-            memoryAccessException_ = std::current_exception();
+            exception_ = std::current_exception();
             return {-1};
         }
     }
diff --git a/src/t86/cpu/reservation_station.h b/src/t86/cpu/reservation_station.h
index a238f05..adac502 100644
--- a/src/t86/cpu/reservation_station.h
+++ b/src/t86/cpu/reservation_station.h
@@ -6,6 +6,7 @@
 #include "../cpu/memory_writes_manager/memory_write.h"
 #include "../utils/stats_logger.h"
 
+#include <exception>
 #include <list>
 #include <vector>
 #include <optional>
@@ -81,6 +82,10 @@ namespace tiny::t86 {
 
         void retire();
 
+        /// Records an error caused by this instruction. The error is thrown when the
+        /// instruction retires, until then it might turn out to be only speculated.
+        void fault(std::exception_ptr exception);
+
         void checkReady();
 
         void startExecution();
@@ -172,6 +177,6 @@ namespace tiny::t86 {
 
         std::size_t loggingId_;
 
-        std::exception_ptr memoryAccessException_;
+        std::exception_ptr exception_;
     };
 }
-- 
2.43.0


From acc6cfe31faf15f1c56b2f37d38e4dddf27288a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:39 +0000
Subject: [PATCH 05/66] fix: PUTNUM prints the whole 64-bit register

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 7f02513..5b179cd 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -715,7 +715,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
     void PUTNUM::retire(ReservationStation::Entry& entry) const {
         const auto& operands = entry.operands();
         assert(operands.size() == 1);
-        os_ << static_cast<int>(operands[0].getValue()) << std::endl;
+        os_ << operands[0].getValue() << std::endl;
     }
 
     void GETCHAR::retire(ReservationStation::Entry& entry) const {
-- 
2.43.0


From f11b752a1f6f53c8c0845653926f3836fbb9ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 06/66] fix: NEG of the smallest integer sets the sign flag in
 optimized builds too

---
 src/t86/cpu/alu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index eddb10a..228682d 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -57,7 +57,8 @@ namespace tiny::t86::Alu {
     }
 
     Result negate(int64_t x) {
-        int64_t result = -x;
+        // Unsigned arithmetic, negating the smallest integer must wrap around
+        int64_t result = static_cast<int64_t>(-static_cast<uint64_t>(x));
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
-- 
2.43.0


From 593c28c272d819cf880c2c61841a1b18aeb34c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:11 +0000
Subject: [PATCH 07/66] fix: an error of a jump instruction is attributed to
 the jump, not to its target

---
 src/t86/cpu/reservation_station.cpp | 5 ++++-
 src/t86/cpu/reservation_station.h   | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/t86/cpu/reservation_station.cpp b/src/t86/cpu/reservation_station.cpp
index b1b6d5a..477303b 100644
--- a/src/t86/cpu/reservation_station.cpp
+++ b/src/t86/cpu/reservation_station.cpp
@@ -300,7 +300,8 @@ namespace tiny::t86 {
               memWriteIds_(std::move(memWriteIds)),
               maxWriteId_(maxWriteId),
               cpu_(cpu),
-              loggingId_(loggingId) {
+              loggingId_(loggingId),
+              nextPc_(cpu.getRegister(readRat_.translate(Register::ProgramCounter()))) {
         remainingExecutionTime_ = Cpu::Config::instance().getExecutionLength(instruction);
     }
 
@@ -366,6 +367,8 @@ namespace tiny::t86 {
         } catch (...) {
             // The faulting instruction and everything after it did not happen
             cpu_.unrollSpeculation(readRat_);
+            // A jump has already changed it
+            cpu_.setRegister(Register::ProgramCounter(), nextPc_);
             throw;
         }
 
diff --git a/src/t86/cpu/reservation_station.h b/src/t86/cpu/reservation_station.h
index adac502..7bd02a9 100644
--- a/src/t86/cpu/reservation_station.h
+++ b/src/t86/cpu/reservation_station.h
@@ -178,5 +178,8 @@ namespace tiny::t86 {
         std::size_t loggingId_;
 
         std::exception_ptr exception_;
+
+        /// Address of the following instruction
+        int64_t nextPc_;
     };
 }
-- 
2.43.0


From e2846c034f3e037316dc7f9e2bf1890418e6d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:43 +0000
Subject: [PATCH 08/66] fix: too large or malformed number literals are parse
 errors

---
 src/common/parsing.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index ec2cc2a..68e51ae 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <stdexcept>
 #include "parsing.h"
 
 TokenKind Lexer::ParseNumber() {
@@ -13,12 +15,19 @@ TokenKind Lexer::ParseNumber() {
         }
         num += lookahead;
     }
-    if (is_float) {
-        float_number = std::stod(num);
-        return TokenKind::FLOAT;
-    } else {
-        number = std::stoi(num);
-        return TokenKind::NUM;
+    if (std::count(num.begin(), num.end(), '.') > 1) {
+        throw ParserError(fmt::format("{}:{}:Malformed number '{}'", row, col, num));
+    }
+    try {
+        if (is_float) {
+            float_number = std::stod(num);
+            return TokenKind::FLOAT;
+        } else {
+            number = std::stoi(num);
+            return TokenKind::NUM;
+        }
+    } catch (const std::out_of_range&) {
+        throw ParserError(fmt::format("{}:{}:Number '{}' is out of range", row, col, num));
     }
 }
 
-- 
2.43.0


From a3d3ab073ae0300e59119a5ef0f9e0f1f4b64623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 09/66] fix: long runs of whitespace or comments no longer
 overflow the stack

---
 src/common/parsing.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index 68e51ae..28fb981 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -57,17 +57,14 @@ void Lexer::ParseString() {
 }
 
 Token Lexer::getNext() {
-    if (lookahead == '#') {
-        while (lookahead != EOF && lookahead != '\n') {
+    while (lookahead == '#' || isspace(lookahead)) {
+        bool comment = lookahead == '#';
+        while (comment && lookahead != EOF && lookahead != '\n') {
             GetChar();
         }
-        if (lookahead == '\n') {
+        if (isspace(lookahead)) {
             GetChar();
         }
-        return getNext();
-    } else if (isspace(lookahead)) {
-        GetChar();
-        return getNext();
     }
 
     RecordTokLoc();
-- 
2.43.0


From ca2909ab0c08c683469fe9e3c85b17b60180a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 10/66] fix: a minus sign without a number after it is a parse
 error

---
 src/t86-parser/parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index c4c62a4..bba2c98 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -81,6 +81,9 @@ int64_t Parser::Imm() {
             neg = -1;
             GetNext();
         }
+        if (curtok.kind != TokenKind::NUM) {
+            throw CreateError("Expected i");
+        }
         auto val = neg * lex.getNumber();
         GetNext();
         return val;
@@ -227,8 +230,7 @@ tiny::t86::Operand Parser::Memory() {
         GetNext();
         // Must be [i]
         if (IsNumber(curtok)) {
-            auto imm = lex.getNumber();
-            GetNext();
+            auto imm = Imm();
             result = Mem(imm);
         } else if (curtok.kind == TokenKind::ID) {
             auto regname1 = lex.getId();
@@ -394,7 +396,7 @@ std::unique_ptr<tiny::t86::MOV> Parser::ParseMOV() {
 
 std::unique_ptr<tiny::t86::Instruction> Parser::Instruction() {
     // Address at the beginning is optional
-    if (IsNumber(curtok)) {
+    if (curtok.kind == TokenKind::NUM) {
         GetNext();
     }
 
-- 
2.43.0


From 009b4330464f5efd2f8c7ac3a8ae16370ec7e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 11/66] fix: [R - R] and [R + R * <not a number>] are parse
 errors

---
 src/t86-parser/parser.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index bba2c98..ddc6edf 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -268,17 +268,15 @@ tiny::t86::Operand Parser::Memory() {
                     } else {
                         result = Mem(reg1 + imm1);
                     }
-                } else if (curtok.kind == TokenKind::ID) {
+                } else if (curtok.kind == TokenKind::ID && !minus) {
                     auto regname2 = lex.getId();
                     auto reg2 = getRegister(regname2);
                     GetNext();
                     // Must be [R + R * i]
                     if (curtok.kind == TokenKind::TIMES) {
                         GetNext();
-                        if (IsNumber(curtok)) {
-                            auto imm = Imm();
-                            result = Mem(reg1 + reg2 * imm);
-                        }
+                        auto imm = Imm();
+                        result = Mem(reg1 + reg2 * imm);
                     // Must be [R + R]
                     } else {
                         result = Mem(reg1 + reg2);
-- 
2.43.0


From 3abe82dedac7f7778d2fc1750050e4c2b6195aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 12/66] fix: accept the documented negative float immediates

---
 src/t86-parser/parser.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index ddc6edf..f3f488e 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -93,8 +93,13 @@ int64_t Parser::Imm() {
 }
 
 tiny::t86::Operand Parser::FloatImm() {
+    int neg = 1;
+    if (curtok.kind == TokenKind::MINUS) {
+        neg = -1;
+        GetNext();
+    }
     if (curtok.kind == TokenKind::FLOAT) {
-        double val = lex.getFloat();
+        double val = neg * lex.getFloat();
         GetNext();
         return tiny::t86::Operand(val);
     } else {
@@ -105,7 +110,7 @@ tiny::t86::Operand Parser::FloatImm() {
 tiny::t86::Operand Parser::FloatImmOrRegister() {
     if (curtok.kind == TokenKind::ID) {
         return FloatRegister();
-    } else if (curtok.kind == TokenKind::FLOAT) {
+    } else if (curtok.kind == TokenKind::FLOAT || curtok.kind == TokenKind::MINUS) {
         return FloatImm();
     } else {
         throw CreateError("Expected either f or F");
@@ -322,6 +327,15 @@ tiny::t86::Operand Parser::Operand() {
         } else {
             return Register();
         }
+    } else if (curtok.kind == TokenKind::MINUS) {
+        if (GetNext() == TokenKind::FLOAT) {
+            double val = -lex.getFloat();
+            GetNext();
+            return tiny::t86::Operand(val);
+        } else if (curtok.kind != TokenKind::NUM) {
+            throw CreateError("Expected i or f");
+        }
+        return -Imm();
     } else if (IsNumber(curtok)) {
         return Imm();
     } else if (curtok.kind == TokenKind::FLOAT) {
-- 
2.43.0


From 9dd8772b110f799378b0568b3d5fb78a28b6d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:34 +0000
Subject: [PATCH 13/66] fix: text that only begins with a number is not a
 number

---
 src/common/helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/helpers.h b/src/common/helpers.h
index 8a9606b..755f894 100644
--- a/src/common/helpers.h
+++ b/src/common/helpers.h
@@ -92,7 +92,7 @@ namespace utils {
 #endif
             T result;
             auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
-            if (ec == std::errc()) {
+            if (ec == std::errc() && ptr == s.data() + s.size()) {
                 return result;
             }
             return std::nullopt;
-- 
2.43.0


From 7803dff6d9855916de8b3ad3545d5877b690496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:57 +0000
Subject: [PATCH 14/66] fix: printed operands read back as the same operand

---
 src/t86/cpu/memory.h             | 2 +-
 src/t86/instructions/operand.cpp | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/t86/cpu/memory.h b/src/t86/cpu/memory.h
index 14d4139..0190577 100644
--- a/src/t86/cpu/memory.h
+++ b/src/t86/cpu/memory.h
@@ -15,7 +15,7 @@ namespace tiny::t86::Memory {
         size_t index() const { return index_; }
 
         std::string toString() const {
-            return "[" + std::to_string(index_) + "]";
+            return "[" + std::to_string(static_cast<int64_t>(index_)) + "]";
         }
 
     private:
diff --git a/src/t86/instructions/operand.cpp b/src/t86/instructions/operand.cpp
index c4bbc97..76aa03b 100644
--- a/src/t86/instructions/operand.cpp
+++ b/src/t86/instructions/operand.cpp
@@ -2,6 +2,7 @@
 #include "../cpu/memory.h"
 #include "helpers.h"
 
+#include <charconv>
 #include <cassert>
 
 
@@ -417,7 +418,11 @@ namespace tiny::t86 {
         } else if (isMemoryRegisterOffsetRegisterScaled()) {
             return getMemoryRegisterOffsetRegisterScaled().toString();
         } else if (isFloatValue()) {
-            return std::to_string(getFloatValue());
+            // Shortest text without exponent which reads back as the same value
+            char buf[512];
+            auto end = std::to_chars(buf, buf + sizeof(buf), getFloatValue(), std::chars_format::fixed).ptr;
+            std::string text(buf, end);
+            return text.find('.') == std::string::npos ? text + ".0" : text;
         } else if (isFloatRegister()) {
             return getFloatRegister().toString();
         }
-- 
2.43.0


From f26261d6dd3ea76a7a39b8ca1c754a5868ceb3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:23 +0000
Subject: [PATCH 15/66] fix: breakpoints, text and memory accesses out of range
 are refused by the debugger

---
 src/debugger/Native.cpp     | 8 ++++++--
 src/debugger/T86Process.cpp | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index e2b1d8b..6128c9b 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -15,6 +15,10 @@ void Native::SetBreakpoint(uint64_t address) {
         throw DebuggerError(
             fmt::format("Breakpoint at {} is already set!", address));
     }
+    if (address >= TextSize()) {
+        throw DebuggerError(
+            fmt::format("Address {} is outside of the text!", address));
+    }
     auto bp = CreateSoftwareBreakpoint(address);
     software_breakpoints.emplace(address, bp);
 }
@@ -53,7 +57,7 @@ void Native::DisableSoftwareBreakpoint(uint64_t address) {
 std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
     // TODO: Needs to replace if some breakpoints are set.
     auto text_size = TextSize();
-    if (address + amount > text_size) {
+    if (address > text_size || amount > text_size - address) {
         throw DebuggerError(
             fmt::format("Reading text at range {}-{}, but text size is {}",
                         address, address + amount, text_size));
@@ -73,7 +77,7 @@ std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
 
 void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     auto text_size = TextSize();
-    if (address + text.size() > text_size) {
+    if (address > text_size || text.size() > text_size - address) {
         throw DebuggerError(
             fmt::format("Writing text at range {}-{}, but text size is {}",
                         address, address + text.size(), text_size));
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 69cde65..604a60f 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -35,7 +35,7 @@ std::vector<std::string> T86Process::ReadText(uint64_t address, size_t amount) {
 }
 
 void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data) {
-    if (address + data.size() > data_size) {
+    if (address > data_size || data.size() > data_size - address) {
         throw DebuggerError(fmt::format("Writing memory at {}-{}, but size is {}",
                     address, address + data.size() - 1, data_size));
     }
@@ -46,7 +46,7 @@ void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data)
 }
 
 std::vector<int64_t> T86Process::ReadMemory(uint64_t address, size_t amount) {
-    if (address + amount > data_size) {
+    if (address > data_size || amount > data_size - address) {
         throw DebuggerError(fmt::format("Reading memory at {}-{}, but size is {}",
                     address, address + amount - 1, data_size));
     }
-- 
2.43.0


From 678be3c2a75cddfdc3d027adacc5f58798984231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:23 +0000
Subject: [PATCH 16/66] fix: removing a watchpoint deactivates it in the
 debuggee

---
 src/debugger/Native.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 6128c9b..625ca13 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -381,11 +381,12 @@ void Native::SetWatchpointWrite(uint64_t address) {
 void Native::RemoveWatchpoint(uint64_t address) {
     auto wp = watchpoints.find(address);
     if (wp == watchpoints.end()) {
-        throw DebuggerError("A watchpoint is already set on that address.");
+        throw DebuggerError("No watchpoint is set on that address.");
     }
     
     auto dbg_regs = process->FetchDebugRegisters();
     Arch::DeactivateDebugRegister(wp->second.hw_reg, dbg_regs);
+    process->SetDebugRegisters(dbg_regs);
     watchpoints.erase(address); 
 }
 
-- 
2.43.0


From 8ea7582150963c37191d835ed2f90e3c262328a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:23 +0000
Subject: [PATCH 17/66] fix: replacing all breakpoints or watchpoints removes
 the old ones

---
 src/debugger/Native.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 625ca13..c43edce 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -262,8 +262,8 @@ void Native::SetRegister(const std::string& name, int64_t value) {
 
 void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
     // Unset existing breakpoints
-    for (auto&& bp: software_breakpoints) {
-        DisableSoftwareBreakpoint(bp.first);
+    while (!software_breakpoints.empty()) {
+        UnsetBreakpoint(software_breakpoints.begin()->first);
     }
 
     for (auto&& breakpoint: bkpts) {
@@ -277,8 +277,8 @@ void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
 }
 
 void Native::SetAllWatchpoints(std::map<uint64_t, Watchpoint> watchpoints) {
-    for (auto&& wp: this->watchpoints) {
-        RemoveWatchpoint(wp.first);
+    while (!this->watchpoints.empty()) {
+        RemoveWatchpoint(this->watchpoints.begin()->first);
     }
 
     for (auto&& wp: watchpoints) {
-- 
2.43.0


From acda67ced9b348a234268aa4803dab4c03907be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:23 +0000
Subject: [PATCH 18/66] fix: reading and writing text under a disabled
 breakpoint, writing invalid text under an enabled one

---
 src/debugger/Native.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index c43edce..c9d69de 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -89,12 +89,15 @@ void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     for (size_t i = 0; i < text.size(); ++i) {
         uint64_t curr_addr = i + address;
         auto bp = software_breakpoints.find(curr_addr);
+        process->WriteText(curr_addr, {text[i]});
         if (bp != software_breakpoints.end()) {
-            bp->second.data = text[i];
-            text[i] = GetSoftwareBreakpointOpcode();
+            if (bp->second.enabled) {
+                bp->second = CreateSoftwareBreakpoint(curr_addr);
+            } else {
+                bp->second.data = process->ReadText(curr_addr, 1).at(0);
+            }
         }
     }
-    process->WriteText(address, text);
 }
 
 DebugEvent Native::PerformSingleStep() {
-- 
2.43.0


From c988e343de409d7fdd279196d26dc6b570fe443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:23 +0000
Subject: [PATCH 19/66] fix: a single step which hits a breakpoint or
 watchpoint does not leave the trap flag set

---
 src/t86/debug.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index 9044c52..e549be5 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -103,10 +103,8 @@ namespace tiny::t86 {
     /// which will communicate with the client.
     /// Should be called on any break situation.
     bool Debug::Work(BreakReason reason) {
-        if (reason == BreakReason::SingleStep) {
-            log_info("Debug handler: After singlestep");
-            cpu.unsetTrapFlag();
-        } 
+        // The step is over even if it ended because of a different reason
+        cpu.unsetTrapFlag();
         log_info("Sending stop message to the debugger");
         messenger->Send("STOPPED");
         
-- 
2.43.0


From 611a7889bf2fa69860dc94db6bdf8493e43cad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:57 +0000
Subject: [PATCH 20/66] fix: memory written by the debugger is what the program
 reads, even if an access to it was in progress

---
 src/t86/ram.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/t86/ram.cpp b/src/t86/ram.cpp
index 1797e99..f7b559f 100644
--- a/src/t86/ram.cpp
+++ b/src/t86/ram.cpp
@@ -75,6 +75,12 @@ namespace tiny::t86 {
 
     void RAM::set(std::size_t address, int64_t value) {
         mem_.at(address) = value;
+        // Accesses in progress carry the old value
+        reads_.erase(address);
+        if (auto it = writes_.find(address); it != writes_.end()) {
+            writesById_.erase(it->second.id);
+            writes_.erase(it);
+        }
     }
 
     std::size_t RAM::size() const {
-- 
2.43.0


From 01e18f461866261af7ceba19b65292b47144b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:01 +0000
Subject: [PATCH 21/66] fix: events inside a call that is stepped over are
 reported, disabled breakpoint on the return address is used

---
 src/debugger/Native.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index c9d69de..038570e 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -128,13 +128,29 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
     auto is_call = std::find_if(calls.begin(), calls.end(),
                                 [&text](auto&& ins) { return text.starts_with(ins); });
     if (is_call != calls.end()) {
-        bool bp_exists = software_breakpoints.contains(ip + 1);
-        if (!bp_exists) {
-            SetBreakpoint(ip + 1); 
+        auto has_enabled_bp = [this](uint64_t address) {
+            auto it = software_breakpoints.find(address);
+            return it != software_breakpoints.end() && it->second.enabled;
+        };
+        if (!skip_bp && has_enabled_bp(ip)) {
+            return DoRawSingleStep();
         }
         // To step over a breakpoint on current line.
         if (skip_bp) {
-            PerformSingleStep();
+            auto e = PerformSingleStep();
+            if (!std::holds_alternative<Singlestep>(e)) {
+                return e;
+            }
+            if (has_enabled_bp(GetIP())) {
+                return BreakpointHit{BPType::Software, GetIP()};
+            }
+        }
+        // The breakpoint on the return address might also be disabled or
+        // the call might be the last instruction.
+        bool bp_exists = software_breakpoints.contains(ip + 1);
+        bool bp_temporary = !has_enabled_bp(ip + 1) && ip + 1 < TextSize();
+        if (bp_temporary) {
+            bp_exists ? EnableSoftwareBreakpoint(ip + 1) : SetBreakpoint(ip + 1);
         }
         // There is a problem with recursive functions. They can hit the breakpoint
         // also. We do this bold heuristic where we check if the BP is the same,
@@ -162,11 +178,11 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
             }
         }
 
-        if (!bp_exists) {
-            UnsetBreakpoint(ip + 1);
+        if (bp_temporary) {
+            bp_exists ? DisableSoftwareBreakpoint(ip + 1) : UnsetBreakpoint(ip + 1);
         }
         // We probably hit some other breakpoint in the call.
-        if (GetIP() != ip + 1) {
+        if (GetIP() != ip + 1 || !std::holds_alternative<BreakpointHit>(e)) {
             return e;
         } else {
             return Singlestep{};
-- 
2.43.0


From d7c4f6e628907bdaa88dfa2a09f113df4b941aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:17 +0000
Subject: [PATCH 22/66] fix: a float immediate is not accepted as the
 destination of MOV

---
 src/t86-parser/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index f3f488e..c60f82b 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -377,8 +377,8 @@ std::unique_ptr<tiny::t86::MOV> Parser::ParseMOV() {
     }
     GetNext();
     auto from = Operand();
-    if (dest.isValue() || dest.isRegisterOffset()) {
-        throw CreateError("MOV can't have i or R + i as dest");
+    if (dest.isValue() || dest.isFloatValue() || dest.isRegisterOffset()) {
+        throw CreateError("MOV can't have i, f or R + i as dest");
     } else if (dest.isRegister()) {
         // Allows almost everyting
         if (from.isRegisterOffset()) {
-- 
2.43.0


From 216013564b404624f0dedc7d8aef48d0f94fca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:36 +0000
Subject: [PATCH 23/66] fix: the byte 0xff in an executable is not the end of
 the file

---
 src/common/parsing.cpp | 6 +++---
 src/common/parsing.h   | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index 28fb981..b1c2959 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -34,7 +34,7 @@ TokenKind Lexer::ParseNumber() {
 void Lexer::ParseString() {
     str.clear();
     while (GetChar() != '"') {
-        if (lookahead == EOF) {
+        if (AtEnd()) {
             throw ParserError("Unterminated string!");
         } else if (lookahead == '\\') {
             GetChar();
@@ -59,7 +59,7 @@ void Lexer::ParseString() {
 Token Lexer::getNext() {
     while (lookahead == '#' || isspace(lookahead)) {
         bool comment = lookahead == '#';
-        while (comment && lookahead != EOF && lookahead != '\n') {
+        while (comment && !AtEnd() && lookahead != '\n') {
             GetChar();
         }
         if (isspace(lookahead)) {
@@ -68,7 +68,7 @@ Token Lexer::getNext() {
     }
 
     RecordTokLoc();
-    if (lookahead == EOF) {
+    if (AtEnd()) {
         return MakeToken(TokenKind::END);
     } else if (lookahead == ';') {
         GetChar();
diff --git a/src/common/parsing.h b/src/common/parsing.h
index 7f46a62..eccc385 100644
--- a/src/common/parsing.h
+++ b/src/common/parsing.h
@@ -127,6 +127,11 @@ private:
         return lookahead;
     }
 
+    /// The byte 0xff looks the same as EOF when stored in a char.
+    bool AtEnd() const {
+        return lookahead == EOF && !input;
+    }
+
     void RecordTokLoc() {
         tok_begin_row = row;
         tok_begin_col = col;
-- 
2.43.0


From 75c5bbcbd6ec92db7a7734e7024176e4878d1c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:36 +0000
Subject: [PATCH 24/66] fix: the first token of a skipped section is skipped
 too

---
 src/debugger/Source/Parser.cpp | 2 +-
 src/t86-parser/parser.cpp      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index f65690e..0fcacff 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -298,6 +298,7 @@ DebuggingInfo Parser::Parse() {
             // debug_source must be last section
             return info;
         }
+        lex.SetIgnoreMode(section_name != "debug_line" && section_name != "debug_info");
         GetNext();
 
         if (section_name == "debug_line") {
@@ -305,7 +306,6 @@ DebuggingInfo Parser::Parse() {
         } else if (section_name == "debug_info") {
             info.top_die = DebugInfo();
         } else {
-            lex.SetIgnoreMode(true);
             log_info("Skipping section '{}'", section_name);
             while (curtok.kind != TokenKind::DOT && curtok.kind != TokenKind::END) {
                 GetNext();
diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index c60f82b..b5cd29d 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -11,6 +11,8 @@ void Parser::Section() {
         throw CreateError("Expected '.section_name'");
     }
     std::string section_name = lex.getId();
+    // This must be set before the first token of a skipped section is read.
+    lex.SetIgnoreMode(section_name != "text" && section_name != "data");
     GetNext();
 
     log_info("Parsing '{}' section", section_name);
@@ -20,7 +22,6 @@ void Parser::Section() {
         Data();
     } else {
         log_info("Skipping '{}' section", section_name);
-        lex.SetIgnoreMode(true);
         while (curtok.kind != TokenKind::DOT && curtok.kind != TokenKind::END) {
             GetNext();
         };
-- 
2.43.0


From 81e536ccd8640567a9f5dad7a384583636084200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 25/66] fix: '<=' and '>=' are accepted in debugger expressions

---
 src/debugger/Source/ExpressionParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/ExpressionParser.cpp b/src/debugger/Source/ExpressionParser.cpp
index 7407878..b9c83af 100644
--- a/src/debugger/Source/ExpressionParser.cpp
+++ b/src/debugger/Source/ExpressionParser.cpp
@@ -76,7 +76,9 @@ std::unique_ptr<Expression> ExpressionParser::logical() {
 std::unique_ptr<Expression> ExpressionParser::comparison() {
     std::unique_ptr<Expression> result = shifts();
     while (curtok.kind == TokenKind::LESS
-            || curtok.kind == TokenKind::GREATER) {
+            || curtok.kind == TokenKind::GREATER
+            || curtok.kind == TokenKind::LEQ
+            || curtok.kind == TokenKind::GEQ) {
         auto kind = curtok.kind;
         GetNext();
         auto next = shifts();
-- 
2.43.0


From 97c291d89a27d6344ddbe0e7e43a4baeaaced1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 26/66] fix: text after a debugger expression is an error

---
 src/debugger/Source/ExpressionParser.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/ExpressionParser.h b/src/debugger/Source/ExpressionParser.h
index 8a7e9b1..25b741a 100644
--- a/src/debugger/Source/ExpressionParser.h
+++ b/src/debugger/Source/ExpressionParser.h
@@ -27,7 +27,11 @@ class ExpressionParser {
 public:
     ExpressionParser(std::istream& is): lex(is) { GetNext(); }
     std::unique_ptr<Expression> ParseExpression() {
-        return expr();
+        auto e = expr();
+        if (curtok.kind != TokenKind::END) {
+            throw CreateError("Unexpected text after the expression");
+        }
+        return e;
     }
 private:
     template<typename ...Args>
-- 
2.43.0


From 273409a01b968bce6c505f0f1155a8f03a46c764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 27/66] fix: an expression beginning with an invalid token is
 reported as a debugger error

---
 src/debugger/Source/Source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index f57a198..7d3ef13 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -342,9 +342,9 @@ std::map<std::string, const DIE*> Source::GetActiveVariables(uint64_t address) c
 std::pair<TypedValue, size_t>
 Source::EvaluateExpression(Native& native, std::string expression, bool cache) {
     std::istringstream iss(std::move(expression));
-    ExpressionParser parser(iss);
     std::unique_ptr<Expression> e; 
     try {
+        ExpressionParser parser(iss);
         e = parser.ParseExpression();
     } catch (const ParserError& err) {
         throw DebuggerError(fmt::format("Unable to parse expression: {}", err.what()));
-- 
2.43.0


From 7114c27546f44382d587ed419aa75de530fecd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 28/66] fix: assignment to a float variable stores the float

---
 src/debugger/Source/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 8b329f2..6608504 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -322,7 +322,7 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             return std::move(left);
         },
         [&](FloatValue&& left, FloatValue&& right) -> TypedValue {
-            SetRaw(native, left.loc.value(), right.value);
+            SetRaw(native, left.loc.value(), utils::reinterpret_safe<uint64_t>(right.value));
             left.value = right.value;
             return std::move(left);
         },
-- 
2.43.0


From cb34255e0e43ffd79c956eec3abcec856d929e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 29/66] fix: negative array index is out of bounds

---
 src/debugger/Source/Expression.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 6608504..61f9f9c 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -241,6 +241,9 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
         if (idx == nullptr) {
             throw DebuggerError("Can only indexate with integers");
         }
+        if (idx->value < 0) {
+            throw DebuggerError(fmt::format("Out of bounds access: {} < 0", idx->value));
+        }
         if (idx->value >= static_cast<int64_t>(av->members.size())) {
             throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, av->members.size()));
         }
-- 
2.43.0


From edcfbfe3812d71c4eae5f92426edc04eb20c0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 30/66] fix: assignment of arrays of different sizes is an
 error instead of an assertion failure

---
 src/debugger/Source/Expression.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 61f9f9c..f02a986 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -346,7 +346,9 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Incopatible pointer types");
             }
-            assert(left.members.size() == right.members.size());
+            if (left.members.size() != right.members.size()) {
+                throw DebuggerError("Incompatible array sizes for assignment");
+            }
             for (size_t i = 0; i < left.members.size(); ++ i) {
                 left.members.at(i) = Assignment(std::move(left.members.at(i)),
                                                 std::move(right.members.at(i)));
-- 
2.43.0


From 87bc96a003b86206d709de998a7b5b71e84ae360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 31/66] fix: overflowing division in an expression no longer
 kills the debugger

---
 src/debugger/Source/Expression.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index f02a986..ada607b 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include <variant>
 #include <functional>
 #include "Expression.h"
@@ -253,6 +254,14 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
     }
 }
 
+/// The only integer division which overflows, it traps on most hardware.
+bool DivisionOverflows(const TypedValue& left, const TypedValue& right) {
+    auto l = std::get_if<IntegerValue>(&left);
+    auto r = std::get_if<IntegerValue>(&right);
+    return l != nullptr && r != nullptr && r->value == -1
+        && l->value == std::numeric_limits<int64_t>::min();
+}
+
 bool CheckZero(const TypedValue& val) {
     return std::visit(utils::overloaded{
         [](const IntegerValue& v) {
@@ -396,6 +405,9 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
         if (!CheckZero(right)) {
             throw DebuggerError("Can't divide by zero");
         }
+        if (DivisionOverflows(left, right)) {
+            throw DebuggerError("The division overflows");
+        }
         visitor_value = ArithmeticOp(std::move(left),
                                      std::divides{},
                                      std::move(right));
@@ -403,6 +415,9 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
         if (!CheckZero(right)) {
             throw DebuggerError("Can't divide by zero");
         }
+        if (DivisionOverflows(left, right)) {
+            throw DebuggerError("The division overflows");
+        }
         visitor_value = BitValues(std::move(left),
                                   std::modulus{},
                                   std::move(right));
-- 
2.43.0


From 1c93c1615bac1bfb3903db3b25560f2f649fb092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 32/66] fix: DEREFERENCE of an offset in a location expression
 reads the memory cell once and pops its operand

---
 src/debugger/Source/ExpressionInterpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/ExpressionInterpreter.cpp b/src/debugger/Source/ExpressionInterpreter.cpp
index b42ed87..384ddfc 100644
--- a/src/debugger/Source/ExpressionInterpreter.cpp
+++ b/src/debugger/Source/ExpressionInterpreter.cpp
@@ -68,14 +68,14 @@ void ExpressionInterpreter::Interpret() {
             },
             [&](const expr::Dereference& ins) {
                 auto v1 = s.top();
+                s.pop();
                 auto v = std::visit(utils::overloaded {
                         [&](const expr::Register& reg) {
                             auto idx = native.GetRegister(reg.name);
                             return native.ReadMemory(idx, 1)[0];
                         },
                         [&](const expr::Offset& offset) {
-                            auto idx = native.ReadMemory(offset.value, 1)[0];
-                            return native.ReadMemory(idx, 1)[0];
+                            return native.ReadMemory(offset.value, 1)[0];
                         }
                 }, v1);
                 s.push(expr::Offset{v});
-- 
2.43.0


From 4080c754e4155686544bb821d0798c6e76cf16c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 33/66] fix: location expressions with too few operands on the
 stack are an error

---
 src/debugger/Source/ExpressionInterpreter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/debugger/Source/ExpressionInterpreter.cpp b/src/debugger/Source/ExpressionInterpreter.cpp
index 384ddfc..7a77d42 100644
--- a/src/debugger/Source/ExpressionInterpreter.cpp
+++ b/src/debugger/Source/ExpressionInterpreter.cpp
@@ -48,12 +48,18 @@ expr::Location ExpressionInterpreter::AddOperands(const expr::Location& o1,
 }
 
 void ExpressionInterpreter::Interpret() {
+    auto require_operands = [this](size_t count) {
+        if (s.size() < count) {
+            throw DebuggerError("Not enough values on stack in location expression.");
+        }
+    };
     for (const auto& ins: exprs) {
         std::visit(utils::overloaded {
             [&](const expr::Push& ins) {
                 s.push(ins.value);
             },
             [&](const expr::Add& ins) {
+                require_operands(2);
                 auto v1 = s.top();
                 s.pop();
                 auto v2 = s.top();
@@ -67,6 +73,7 @@ void ExpressionInterpreter::Interpret() {
                 s.push(expr::Offset{loc});
             },
             [&](const expr::Dereference& ins) {
+                require_operands(1);
                 auto v1 = s.top();
                 s.pop();
                 auto v = std::visit(utils::overloaded {
-- 
2.43.0


From c844046ecc36e31c9a3b4485dc77de4859e4556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 34/66] fix: structured types with missing attributes are
 skipped as the other incomplete types

---
 src/debugger/Source/Source.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 7d3ef13..4adc485 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -222,6 +222,10 @@ void Source::ReconstructTypeInformation() {
             auto name = FindDieAttribute<ATTR_name>(die);
             auto size = FindDieAttribute<ATTR_size>(die);
             auto members = FindDieAttribute<ATTR_members>(die);
+            if (!name || !size || !members) {
+                log_error("DIE structured_type: Missing name, size or members");
+                continue;
+            }
             std::vector<StructuredMember> members_vec;
             std::transform(members->m.begin(), members->m.end(),
                     std::back_inserter(members_vec),
-- 
2.43.0


From 17ad9d789fe88f03cd5a26943b8ceea083db5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 35/66] fix: a variable in an inner scope hides the outer one
 regardless of their order in debug info

---
 src/debugger/Source/Source.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 4adc485..a928317 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -330,8 +330,16 @@ void FindVariables(uint64_t address, const DIE& die, std::map<std::string, const
             return;
         }
     }
+    // Variables of nested scopes hide those of this one.
     for (const auto& d: die) {
-        FindVariables(address, d, result);
+        if (d.get_tag() == DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
+    }
+    for (const auto& d: die) {
+        if (d.get_tag() != DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
     }
 }
 
-- 
2.43.0


From d9635be1796c77ad0ad75dfbbd960bb2f627112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 36/66] fix: entries of a DIE must begin with a name,
 one-instruction locations must be closed

---
 src/debugger/Source/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index 0fcacff..d259df9 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -144,6 +144,9 @@ std::vector<expr::LocExpr> Parser::ParseExprLoc() {
         if (GetNext() != TokenKind::BACKTICK) {
             auto loc = ParseOneExprLoc();
             result.push_back(std::move(loc));
+            if (curtok.kind != TokenKind::BACKTICK) {
+                throw CreateError("Expected closing '`'");
+            }
         }
         GetNext(); // Eat the '`'
     } else if (curtok.kind == TokenKind::LBRACKET) {
@@ -242,6 +245,9 @@ DIE Parser::ParseDIE(std::string name) {
     std::vector<DIE_ATTR> attributes;
     std::vector<DIE> childs;
     while (curtok.kind != TokenKind::RBRACE) {
+        if (curtok.kind != TokenKind::ID) {
+            throw CreateError("Expected attribute or DIE name");
+        }
         auto id = lex.getId();
         GetNext();
         if (id.starts_with("ATTR")) {
-- 
2.43.0


From 2e825f226ad9093627a72994482e5a63e002f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:33 +0000
Subject: [PATCH 37/66] fix: debug info beginning with an invalid token no
 longer terminates the debugger

---
 src/debugger/Source/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/Source/Parser.h b/src/debugger/Source/Parser.h
index 57412ac..66ad987 100644
--- a/src/debugger/Source/Parser.h
+++ b/src/debugger/Source/Parser.h
@@ -16,7 +16,7 @@ struct DebuggingInfo {
 /// Parser debugging information, like DIEs, line to addr mapping and so on.
 class Parser {
 public:
-    Parser(std::istream& iss) noexcept : lex(iss) { GetNext(); }
+    Parser(std::istream& iss) : lex(iss) { GetNext(); }
 
     template<typename ...Args>
     ParserError CreateError(fmt::format_string<Args...> format, Args&& ...args) const {
-- 
2.43.0


From 744299ef6404d280b50a8785991928f87cbc5f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:07 +0000
Subject: [PATCH 38/66] fix: breakpoint commands on a function without line
 information do not crash

---
 src/dbg-cli/CLI.h | 56 ++++++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 9c2ced0..06239a5 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -453,6 +453,23 @@ Most often, the correct address will be one below it.)";
         }
     }
 
+    /// Reports what was done with a breakpoint set on source line or function.
+    void ReportSourceBreakpoint(std::string_view action, uint64_t addr) {
+        auto line = source.AddrToLine(addr);
+        // A function need not have a line assigned.
+        if (!line) {
+            fmt::print("Breakpoint {} addr {}\n", action, addr);
+            return;
+        }
+        fmt::print("Breakpoint {} line {} (addr {})", action, *line + 1, addr);
+        auto source_line = source.GetLine(*line);
+        if (source_line) {
+            fmt::print(": {}\n", *source_line);
+        } else {
+            fmt::print("\n");
+        }
+    }
+
     void HandleBreakpoint(std::string_view command) {
         // TODO: Lot of repeated code
         if (!process.Active()) {
@@ -469,50 +486,19 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "set", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.SetBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint set on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            ReportSourceBreakpoint("set on", addr);
         } else if (check_command(subcommands, "remove", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.UnsetBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint removed from line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            ReportSourceBreakpoint("removed from", addr);
         } else if (check_command(subcommands, "enable", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.EnableSoftwareBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint enabled on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            ReportSourceBreakpoint("enabled on", addr);
         } else if (check_command(subcommands, "disable", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.DisableSoftwareBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint disabled on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            ReportSourceBreakpoint("disabled on", addr);
         } else if (check_command(subcommands, "idisable", 2)) {
             auto address = ParseAddress(subcommands.at(1));
             process.DisableSoftwareBreakpoint(address);
-- 
2.43.0


From 666c077dc77dbc7860f1846eee92b2bccac6ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:07 +0000
Subject: [PATCH 39/66] fix: memory set with an invalid address is an error

---
 src/dbg-cli/CLI.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 06239a5..57c55e0 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -836,6 +836,9 @@ Most often, the correct address will be one below it.)";
         auto subcommands = utils::split_v(command);
         if (check_command(subcommands, "set", 3)) {
             auto cell = utils::svtonum<size_t>(subcommands.at(1));
+            if (!cell) {
+                Error("Expected memory cell, got '{}'", subcommands.at(1));
+            }
             std::vector<int64_t> values;
             std::transform(std::next(subcommands.begin(), 2), subcommands.end(), 
                     std::back_inserter(values), [&](auto&& s) { 
-- 
2.43.0


From 795262faa9a1ee105ba7cdd1494f534f620aa608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:07 +0000
Subject: [PATCH 40/66] fix: assemble interactive with an invalid address is an
 error

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 57c55e0..ed16382 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -784,7 +784,7 @@ Most often, the correct address will be one below it.)";
         if (check_command(subcommands, "interactive", 2)) {
             auto addr = utils::svtonum<size_t>(subcommands.at(1));
             if (!addr) {
-                Error("Expected address, got '{}'", subcommands.at(2));
+                Error("Expected address, got '{}'", subcommands.at(1));
             }
             InteractiveAssemble(*addr);
         } else {
-- 
2.43.0


From 0493ea59b71a97438f3cc09c3817866c6a73ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:07 +0000
Subject: [PATCH 41/66] fix: a failed attach or run leaves the debugger and the
 current process running

---
 src/dbg-cli/CLI.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index ed16382..a170f6e 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -981,14 +981,10 @@ Most often, the correct address will be one below it.)";
         if (main_command == "") {
             fmt::print("{}", USAGE);
         } else if (utils::is_prefix_of(main_command, "run")) {
-            ExitProcess();
             HandleRun(command);
             return;
         } else if (utils::is_prefix_of(main_command, "attach")) {
-            ExitProcess();
             Attach(command);
-            is_running = true;
-            process.WaitForDebugEvent();
             return;
         } else if (utils::is_prefix_of(main_command, "help")) {
             HandleHelp(command);
@@ -1047,6 +1043,7 @@ Most often, the correct address will be one below it.)";
             return;
         }
         auto [source, program] = ParseProgram(std::string{*fname});
+        ExitProcess();
 
         size_t reg_count = 8;
         auto v = ParseOptionalCommand<size_t>(subcommands, "--reg-count=");
@@ -1123,6 +1120,10 @@ Most often, the correct address will be one below it.)";
                 HandleCommand(line);
             } catch (const DebuggerError& err) {
                 fmt::print("Error: {}\n", err.what());
+            } catch (const ParserError& err) {
+                fmt::print("Error: Unable to parse '{}': {}\n", *fname, err.what());
+            } catch (const std::exception& err) {
+                fmt::print("Error: {}\n", err.what());
             }
 FREE_LINE:
             free(line_raw);
@@ -1158,22 +1159,26 @@ private:
     void Attach(std::string_view command) {
         auto subcommands = utils::split_v(command);
         if (subcommands.size() < 1) {
-            fmt::print("A port is needed, use `attach <port>`");
-            return;
+            Error("A port is needed, use `attach <port>`");
         }
         auto port_o = utils::svtonum<int>(subcommands.at(0));
         if (!port_o) {
-            fmt::print("Expected port, got '{}'", *port_o);
+            Error("Expected port, got '{}'", subcommands.at(0));
         }
-        auto debuggee = Native::Initialize(*port_o);
-        process = Native(std::move(debuggee));
+        Source new_source;
         if (fname) {
             std::ifstream file(*fname);
             if (!file) {
                 Error("Unable to open file '{}'\n", *fname);
             }
-            source = ParseDebugInfo(file);
+            new_source = ParseDebugInfo(file);
         }
+        auto debuggee = Native::Initialize(*port_o);
+        ExitProcess();
+        process = Native(std::move(debuggee));
+        source = std::move(new_source);
+        is_running = true;
+        process.WaitForDebugEvent();
     }
 
     Source ParseDebugInfo(std::ifstream& file) {
-- 
2.43.0


From 932da8f5846cbe632c888227d5a4a62f7aabd527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:07 +0000
Subject: [PATCH 42/66] fix: an executable beginning with an invalid token is a
 parse error of t86-cli

---
 src/t86-cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index 693e76d..ae68df3 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -58,9 +58,9 @@ int main(int argc, char* argv[]) {
         return 3;
     }
 
-    Parser parser(f);
     tiny::t86::Program program;
     try {
+        Parser parser(f);
         program = parser.Parse();
         // program.dump();
     } catch (ParserError &err) {
-- 
2.43.0


From 0f70078f9b9575fa63dac21b11cc6efd34897971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:22 +0000
Subject: [PATCH 43/66] fix: text beginning with an invalid token is refused by
 WriteText as other malformed text

---
 src/debugger/T86Process.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 604a60f..ab9f403 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -9,8 +9,8 @@ void T86Process::WriteText(uint64_t address,
                            const std::vector<std::string> &data) {
     for (size_t i = 0; i < data.size(); ++i) {
         std::istringstream iss(data[i]);
-        Parser p(iss);
         try {
+            Parser p(iss);
             p.Instruction();
             p.CheckEnd();
         } catch (const ParserError& err) {
-- 
2.43.0


From 7a16b060b696c528522948dc304a89fb6361aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:22 +0000
Subject: [PATCH 44/66] fix: malformed or out of range debugger requests are
 answered with an error instead of ending the VM

---
 src/t86/debug.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index e549be5..c1c8d6d 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -117,8 +117,9 @@ namespace tiny::t86 {
                 return false;
             }
             log_info("Received message '{}' from debugger", *message);
+            try {
             auto commands = utils::split_v(*message, ' ');
-            auto command = commands[0];
+            auto command = commands.at(0);
             if (command == "REASON") {
                 std::string r = ReasonToString(reason);
                 messenger->Send(r);
@@ -174,17 +175,17 @@ namespace tiny::t86 {
                 messenger->Send(regs);
             } else if (command == "POKEDEBUGREGS") {
                 auto reg = TranslateToDebugRegister(commands.at(1));
-                auto val = *utils::svtonum<uint64_t>(commands.at(2));
+                auto val = utils::svtonum<uint64_t>(commands.at(2)).value();
                 cpu.setDebugRegister(reg, val);
                 messenger->Send("OK");
             } else if (command.starts_with("POKEFLOATREGS")) {
                 auto reg = TranslateToFloatRegister(commands.at(1));
-                auto val = *utils::svtonum<double>(commands.at(2));
+                auto val = utils::svtonum<double>(commands.at(2)).value();
                 cpu.setFloatRegisterDebug(reg, val);
                 messenger->Send("OK");
             } else if (command.starts_with("POKEREGS")) {
                 auto reg = TranslateToRegister(commands.at(1));
-                auto val = *utils::svtonum<int64_t>(commands.at(2));
+                auto val = utils::svtonum<int64_t>(commands.at(2)).value();
                 cpu.setRegisterDebug(reg, val);
                 messenger->Send("OK");
             } else if (command == "SINGLESTEP") {
@@ -206,6 +207,12 @@ namespace tiny::t86 {
                 messenger->Send("UNKNOWN COMMAND");
                 continue;
             }
+            } catch (const TCP::TCPError&) {
+                throw;
+            } catch (const std::exception& e) {
+                log_error("Invalid request '{}': {}", *message, e.what());
+                messenger->Send(fmt::format("ERROR: {}", e.what()));
+            }
         }
 
         return true;
-- 
2.43.0


From 88b669cbb4d310ecae8a2e2aaae8fd9dd35cda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:22 +0000
Subject: [PATCH 45/66] fix: TCP messages arrive whole even if the length
 prefix is split, failed sends are reported

---
 src/common/TCP.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index b3960f4..fd0745f 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -52,7 +52,11 @@ private:
 inline void SendRaw(int socket, const uint8_t* data, size_t size) {
     size_t sent = 0;
     while (sent < size) {
-        sent += send(socket, &data[sent], size - sent, 0);
+        auto err = send(socket, &data[sent], size - sent, MSG_NOSIGNAL);
+        if (err < 0) {
+            throw TCPError("Sending failed");
+        }
+        sent += err;
     }
 }
 
@@ -69,14 +73,19 @@ inline void Send(int socket, const std::string& s) {
 inline std::optional<std::string> Receive(int socket) {
     // The messages are in form 8b | data
     size_t size = 0;
-    int err = read(socket, &size, sizeof(size_t));
-    if (err < 0) {
-        throw TCPError("Reading failed");
-    } if (err == 0) {
-        return std::nullopt;
+    size_t received = 0;
+    while (received < sizeof(size_t)) {
+        int err = read(socket, reinterpret_cast<uint8_t*>(&size) + received,
+                       sizeof(size_t) - received);
+        if (err < 0) {
+            throw TCPError("Reading failed");
+        } if (err == 0) {
+            return std::nullopt;
+        }
+        received += err;
     }
 
-    size_t received = 0;
+    received = 0;
     std::vector<uint8_t> data(size);
     while (received < size) {
         int err = read(socket, data.data() + received, size - received);
-- 
2.43.0


From aba124956ebb0f47a42cd57fd194046beb40d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:51 +0000
Subject: [PATCH 46/66] fix: svtoi64: text that only begins with a number is
 not a number

---
 src/common/helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/helpers.h b/src/common/helpers.h
index 755f894..1867159 100644
--- a/src/common/helpers.h
+++ b/src/common/helpers.h
@@ -71,7 +71,7 @@ namespace utils {
     inline std::optional<int64_t> svtoi64(std::string_view s) {
         int64_t result;
         auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
-        if (ec == std::errc()) {
+        if (ec == std::errc() && ptr == s.data() + s.size()) {
             return result;
         }
         return std::nullopt;
-- 
2.43.0


From 365a4429903d49ab841027d8ea488e061dc57f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:40 +0000
Subject: [PATCH 47/66] fix: a closed connection is reported when registers are
 requested

---
 src/debugger/T86Process.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debugger/T86Process.h b/src/debugger/T86Process.h
index e6172eb..febe59a 100644
--- a/src/debugger/T86Process.h
+++ b/src/debugger/T86Process.h
@@ -91,6 +91,9 @@ private:
     template<typename T>
     std::map<std::string, T> FetchRegistersOfType() {
         auto regs = process->Receive();
+        if (!regs) {
+            throw DebuggerError("Error reading registers: the connection was closed");
+        }
         auto lines = utils::split_v(*regs, '\n');
         std::map<std::string, T> result;
         for (const auto& line: lines) {
-- 
2.43.0


From 6a6d6be1e7659a115bb7774e9062987891ade1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 48/66] fix: t86-cli reports option values that are not numbers

---
 src/t86-cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index ae68df3..febd9ce 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -45,7 +45,7 @@ int main(int argc, char* argv[]) {
 
     try {
         args.parse_args(argc, argv);
-    } catch (const std::runtime_error& err) {
+    } catch (const std::exception& err) {
         std::cerr << err.what() << "\n";
         std::cerr << args;
         std::exit(1);
-- 
2.43.0


From 34b5fad38ecd8e88b1b585aba8dcbd4051fcf502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 49/66] fix: data larger than the memory is reported, it
 aborted t86-cli and dbg-cli

---
 src/dbg-cli/CLI.h    | 6 +++++-
 src/t86-cli/main.cpp | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index a170f6e..c69cf31 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1043,7 +1043,6 @@ Most often, the correct address will be one below it.)";
             return;
         }
         auto [source, program] = ParseProgram(std::string{*fname});
-        ExitProcess();
 
         size_t reg_count = 8;
         auto v = ParseOptionalCommand<size_t>(subcommands, "--reg-count=");
@@ -1060,6 +1059,11 @@ Most often, the correct address will be one below it.)";
         if (v) {
             memory_size = *v;
         }
+        if (program.data().size() > memory_size) {
+            Error("The data of the program ({} cells) do not fit into the memory ({} cells)",
+                  program.data().size(), memory_size);
+        }
+        ExitProcess();
 
         auto m1 = std::make_unique<ThreadMessengerOwner>();
         auto m2 = std::make_unique<ThreadMessenger>(m1->GetOutQueue(), m1->GetInQueue());
diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index febd9ce..a264ca1 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -72,6 +72,12 @@ int main(int argc, char* argv[]) {
     size_t fltregs = args.get<size_t>("--float-register-cnt");
     size_t memsize = args.get<size_t>("--memory-size");
 
+    if (program.data().size() > memsize) {
+        std::cerr << "The data of the program (" << program.data().size()
+                  << " cells) do not fit into the memory (" << memsize << " cells)\n";
+        return 4;
+    }
+
     OS os(regs, fltregs, memsize);
 
     if (args["debug"] == true) {
-- 
2.43.0


From acbb4b46c24d98f52e4510c6541fc67e0ce402d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 50/66] fix: dbg-cli run refuses sizes that are not numbers

---
 src/dbg-cli/CLI.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index c69cf31..da378cb 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1147,9 +1147,10 @@ private:
         if (f_it != commands.end()) {
             auto val = f_it->substr(searched_command.size());
             auto opt = utils::svtonum<size_t>(val);
-            if (opt) {
-                return *opt;
+            if (!opt) {
+                Error("Expected number in '{}'", *f_it);
             }
+            return *opt;
         }
         return {};
     }
-- 
2.43.0


From a42c016a9ea12eeb3307ab1ac03c5373c2c65e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 51/66] fix: source from stops at the end of the source

---
 src/dbg-cli/CLI.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index da378cb..aa633f2 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -348,7 +348,8 @@ public:
         for (size_t i = from; i < to; ++i) {
             auto line = source.GetLine(i);
             if (!line) {
-                continue;
+                // There are no lines past the end of the source either.
+                break;
             }
             std::string pretty_rest;
             if (curr_loc && i == *curr_loc) {
-- 
2.43.0


From 232b825d17cce6d289f209e40050714d2dc61d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 52/66] fix: disassemble range includes its end, as documented

---
 src/dbg-cli/CLI.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index aa633f2..2003f4b 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -697,7 +697,10 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "range", 3)) {
             auto begin = ParseAddress(subcommands.at(1));
             auto end = ParseAddress(subcommands.at(2));
-            auto text = process.ReadText(begin, end - begin);
+            if (end < begin) {
+                Error("The end of the range is before its beginning");
+            }
+            auto text = process.ReadText(begin, end - begin + 1);
             PrintText(begin, text);
         } else if (check_command(subcommands, "from", 2)) {
             auto begin = ParseAddress(subcommands.at(1));
-- 
2.43.0


From 2e7626867b1e1640edbafa85def846400479507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 53/66] fix: a debugger whose process is gone can exit and run
 another one

---
 src/dbg-cli/CLI.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 2003f4b..e608201 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1102,7 +1102,11 @@ Most often, the correct address will be one below it.)";
     // Cleanly exits the underlying VM if running.
     void ExitProcess() {
         if (process.Active()) {
-            process.Terminate();
+            try {
+                process.Terminate();
+            } catch (const DebuggerError& err) {
+                log_error("The process could not be terminated: {}", err.what());
+            }
             if (t86vm.joinable()) {
                 t86vm.join();
             }
-- 
2.43.0


From 8430a63d0d61182dc29aa5d2cb9ad7a11a7c0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 54/66] fix: help breakpoint lists the remove subcommand under
 its name

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index e608201..a144ff6 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -87,7 +87,7 @@ breakpoint on instruction at address 1.
 The <loc> can either be a function name or a source line.
 
 - set <loc> = Creates breakpoint at <loc> and enables it.
-- unset <loc> = Removes breakpoint at <loc>.
+- remove <loc> = Removes breakpoint at <loc>.
 - enable <loc> = Enables breakpoint at <loc>.
 - disable <loc> = Disables breakpoint at <loc>.
 - list = Lists existing breakpoints.
-- 
2.43.0


From cf5102babda33306cf795f1a7fc8c979a38d5c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:01 +0000
Subject: [PATCH 55/66] fix: a debugger whose remote process closed the
 connection can exit and run another one

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index a144ff6..58ce9bb 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1104,7 +1104,7 @@ Most often, the correct address will be one below it.)";
         if (process.Active()) {
             try {
                 process.Terminate();
-            } catch (const DebuggerError& err) {
+            } catch (const std::exception& err) {
                 log_error("The process could not be terminated: {}", err.what());
             }
             if (t86vm.joinable()) {
-- 
2.43.0


From f678813ff79ad302678aba97e0253101c3cbbd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 56/66] fix: a word that is neither an attribute nor a DIE is
 an error

---
 src/debugger/Source/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index d259df9..1e6dd29 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -256,6 +256,8 @@ DIE Parser::ParseDIE(std::string name) {
         } else if (id.starts_with("DIE")) {
             auto die = ParseDIE(std::move(id));
             childs.push_back(std::move(die));
+        } else {
+            throw CreateError("Expected attribute or DIE name, got '{}'", id);
         }
         if (curtok.kind == TokenKind::COMMA) {
             GetNext();
-- 
2.43.0


From f0835e263c821a8707e2fe91bacf4117a114f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 57/66] fix: breakpoint list counts lines from one like the
 other commands

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 58ce9bb..cee5ceb 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -517,7 +517,7 @@ Most often, the correct address will be one below it.)";
             for (auto&& [addr, b]: bps) {
                 auto line = source.AddrToLine(addr);
                 fmt::print("addr: {}{}; {}", addr,
-                        line ? fmt::format(", line: {}", *line) : "",
+                        line ? fmt::format(", line: {}", *line + 1) : "",
                         b.enabled ? "enabled" : "disabled");
                 auto fun = source.GetFunctionNameByAddress(addr);
                 if (fun) {
-- 
2.43.0


From 9c04f49a8ac8474be96f206e2afc8f3c22b404b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 58/66] fix: t86-cli reports a machine or a debugging
 connection it cannot create

---
 src/t86-cli/main.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index a264ca1..afe4161 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -78,14 +78,19 @@ int main(int argc, char* argv[]) {
         return 4;
     }
 
-    OS os(regs, fltregs, memsize);
+    try {
+        OS os(regs, fltregs, memsize);
 
-    if (args["debug"] == true) {
-        auto m = std::make_unique<TCP::TCPServer>(DEFAULT_DBG_PORT);
-        m->Initialize();
-        os.SetDebuggerComms(std::move(m));
-        log_info("Listening for debugger connections");
-    }
+        if (args["debug"] == true) {
+            auto m = std::make_unique<TCP::TCPServer>(DEFAULT_DBG_PORT);
+            m->Initialize();
+            os.SetDebuggerComms(std::move(m));
+            log_info("Listening for debugger connections");
+        }
 
-    os.Run(std::move(program));
+        os.Run(std::move(program));
+    } catch (const std::exception& err) {
+        std::cerr << err.what() << std::endl;
+        return 5;
+    }
 }
-- 
2.43.0


From 232c71001e6f8399e55e8a07f97bea019b190307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 59/66] fix: run refuses a machine that cannot be created and
 keeps the running process

---
 src/dbg-cli/CLI.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index cee5ceb..2b6ec77 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1067,18 +1067,19 @@ Most often, the correct address will be one below it.)";
             Error("The data of the program ({} cells) do not fit into the memory ({} cells)",
                   program.data().size(), memory_size);
         }
+        // Might fail if it is too big, the current process is still needed then.
+        auto os = std::make_unique<tiny::t86::OS>(reg_count, float_reg_count, memory_size);
         ExitProcess();
 
         auto m1 = std::make_unique<ThreadMessengerOwner>();
         auto m2 = std::make_unique<ThreadMessenger>(m1->GetOutQueue(), m1->GetInQueue());
 
         t86vm = std::thread([](std::unique_ptr<ThreadMessenger> messenger,
-                           tiny::t86::Program program, size_t reg_cnt,
-                           double float_reg_cnt, size_t memory_size) {
-            tiny::t86::OS os(reg_cnt, float_reg_cnt, memory_size);
-            os.SetDebuggerComms(std::move(messenger));
-            os.Run(std::move(program));
-        }, std::move(m2), std::move(program), reg_count, float_reg_count, memory_size);
+                           tiny::t86::Program program,
+                           std::unique_ptr<tiny::t86::OS> os) {
+            os->SetDebuggerComms(std::move(messenger));
+            os->Run(std::move(program));
+        }, std::move(m2), std::move(program), std::move(os));
         
         auto t86dbg = std::make_unique<T86Process>(std::move(m1), reg_count,
                                                    float_reg_count, memory_size);
-- 
2.43.0


From 8b42b618881438741c91dd575d97b357468d7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:36 +0000
Subject: [PATCH 60/66] fix: t86-cli opens its file only for reading

---
 src/t86-cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index afe4161..0cceb9b 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -52,7 +52,7 @@ int main(int argc, char* argv[]) {
     }
 
     std::string filename = args.get<std::string>("file");
-    std::fstream f(filename);
+    std::ifstream f(filename);
     if (!f) {
         std::cerr << "Unable to open file `" << filename << "`\n";
         return 3;
-- 
2.43.0


From 36e47a2db8905da342d37cdc0311b65db13270b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 61/66] fix: an array of an unknown type is shown as an array,
 not as a pointer

---
 src/debugger/Source/Source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index a928317..34f20d6 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -413,7 +413,7 @@ std::string Source::TypeToString(const Type& type) const {
         },
         [this](const ArrayType& t) {
             if (!types.contains(t.type_id)) {
-                return fmt::format("<unknown>*");
+                return fmt::format("<unknown>[]");
             }
             return fmt::format("{}[]", TypeToString(types.at(t.type_id))); 
         },
-- 
2.43.0


From 4c61f3756f2bce9c5dc0f9284e809a9b05a50dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:25 +0000
Subject: [PATCH 62/66] fix: Reg() refuses the register after the last one

---
 src/t86/program/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/program/helpers.cpp b/src/t86/program/helpers.cpp
index 9a8a67e..91d34e0 100644
--- a/src/t86/program/helpers.cpp
+++ b/src/t86/program/helpers.cpp
@@ -2,7 +2,7 @@
 
 namespace tiny::t86 {
     Register Reg(size_t index) {
-        if (index > Cpu::Config::instance().registerCnt()) {
+        if (index >= Cpu::Config::instance().registerCnt()) {
             throw InvalidRegister(Register(index));
         }
         return Register(index);
-- 
2.43.0


From 3714b97fa40c28e26413c1711a8e015744f9106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:42 +0000
Subject: [PATCH 63/66] fix: a default CPU has all the configured sizes, not
 ALUs for float registers

---
 src/t86/cpu.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/t86/cpu.cpp b/src/t86/cpu.cpp
index 34d7ccc..4fa5ebd 100644
--- a/src/t86/cpu.cpp
+++ b/src/t86/cpu.cpp
@@ -338,9 +338,7 @@ namespace tiny::t86 {
         writesManager_.removePending();
     }
 
-    Cpu::Cpu() : Cpu(Cpu::Config::instance().registerCnt(),
-                     Cpu::Config::instance().aluCnt(),
-                     Cpu::Config::instance().reservationStationEntriesCnt()) {}
+    Cpu::Cpu() : Cpu(Cpu::Config::instance().registerCnt()) {}
 
     MemoryWrite::Id Cpu::registerPendingWrite(Memory::Immediate mem) {
         return writesManager_.registerPendingWrite(mem.index());
-- 
2.43.0


From 282239bb3f6ba5daaf9513916e7841796df16a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:04 +0000
Subject: [PATCH 64/66] fix: the configured number of reservation station
 entries is used

---
 src/t86/cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/cpu.cpp b/src/t86/cpu.cpp
index 4fa5ebd..2f07652 100644
--- a/src/t86/cpu.cpp
+++ b/src/t86/cpu.cpp
@@ -110,7 +110,7 @@ namespace tiny::t86 {
               Cpu::Config::instance().ramSize()) {}
 
     Cpu::Cpu(std::size_t registerCount, std::size_t floatRegisterCount, std::size_t ramSize)
-            : Cpu(registerCount, floatRegisterCount, Cpu::Config::instance().aluCnt(), 2 * Cpu::Config::instance().aluCnt(), ramSize, Config::instance().ramGatesCount()) {}
+            : Cpu(registerCount, floatRegisterCount, Cpu::Config::instance().aluCnt(), Cpu::Config::instance().reservationStationEntriesCnt(), ramSize, Config::instance().ramGatesCount()) {}
 
     Cpu::Cpu(std::size_t registerCount, std::size_t floatRegisterCount, std::size_t aluCnt, std::size_t reservationStationEntriesCount,
         std::size_t ramSize, std::size_t ramGatesCnt)
-- 
2.43.0


From 543f46d6984488222757b21c3092f7138c5dd665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:16 +0000
Subject: [PATCH 65/66] fix: types which are a part of themselves or point only
 to themselves are unknown, showing them crashed

---
 src/debugger/Source/Source.cpp | 39 ++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 34f20d6..5485d69 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -184,6 +184,31 @@ std::optional<expr::Location> Source::GetVariableLocation(Native& native,
     return loc;
 }
 
+/// Whether the type with id `target` is reached again from the type with id
+/// `from`, following its elements and, if `pointers` is set, what it points to,
+/// otherwise its members.
+bool LeadsToType(const std::map<size_t, Type>& types, size_t from, size_t target,
+                 bool pointers, std::set<size_t>& visited) {
+    auto it = types.find(from);
+    if (it == types.end()) {
+        return false;
+    }
+    std::vector<size_t> next;
+    if (auto array = std::get_if<ArrayType>(&it->second)) {
+        next.push_back(array->type_id);
+    } else if (auto pointer = std::get_if<PointerType>(&it->second); pointer && pointers) {
+        next.push_back(pointer->type_id);
+    } else if (auto structure = std::get_if<StructuredType>(&it->second); structure && !pointers) {
+        for (auto&& member: structure->members) {
+            next.push_back(member.type_id);
+        }
+    }
+    return std::any_of(next.begin(), next.end(), [&](size_t id) {
+        return id == target
+            || (visited.insert(id).second && LeadsToType(types, id, target, pointers, visited));
+    });
+}
+
 void Source::ReconstructTypeInformation() {
     if (!top_die) {
         return;
@@ -267,6 +292,20 @@ void Source::ReconstructTypeInformation() {
         }
         // Else not a type die.
     }
+    // A value can't contain itself and a chain of pointers has to end with
+    // something else, such types have neither a size nor a name.
+    std::vector<size_t> endless;
+    for (auto&& [id, type]: types) {
+        std::set<size_t> contained, pointed;
+        if (LeadsToType(types, id, id, false, contained)
+                || LeadsToType(types, id, id, true, pointed)) {
+            endless.push_back(id);
+        }
+    }
+    for (auto&& id: endless) {
+        log_error("Type of id {} never ends! Skipping this one", id);
+        types.erase(id);
+    }
 }
 
 std::optional<Type> Source::GetVariableTypeInformation(Native& native, std::string_view name) const {
-- 
2.43.0


From 364a9d286b3d4112fd74873e92efcc886726f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 66/66] fix: a refused assignment of a structure had already
 assigned some of its members

---
 src/debugger/Source/Expression.cpp | 33 ++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index ada607b..6ccf891 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -320,6 +320,31 @@ void SetRaw(Native& native, const expr::Location& loc, uint64_t value) {
     }, loc);
 }
 
+/// Whether every part of `right` can be assigned to its part of `left`.
+bool AreAssignable(const TypedValue& left, const TypedValue& right) {
+    return std::visit(utils::overloaded{
+        [](const IntegerValue&, const IntegerValue&) { return true; },
+        [](const FloatValue&, const FloatValue&) { return true; },
+        [](const CharValue&, const CharValue&) { return true; },
+        [](const PointerValue& left, const PointerValue& right) {
+            return left.type.type_id == right.type.type_id;
+        },
+        [](const ArrayValue& left, const ArrayValue& right) {
+            return left.type.type_id == right.type.type_id
+                && left.members.size() == right.members.size();
+        },
+        [](const StructuredValue& left, const StructuredValue& right) {
+            return left.name == right.name
+                && std::all_of(left.members.begin(), left.members.end(), [&](auto&& member) {
+                    auto other = right.members.find(member.first);
+                    return other != right.members.end()
+                        && AreAssignable(member.second, other->second);
+                });
+        },
+        [](auto&&, auto&&) { return false; }
+    }, left, right);
+}
+
 TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right) {
     std::visit([](auto&& arg) {
         if (!arg.loc) {
@@ -370,11 +395,15 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             if (left.name != right.name) {
                 throw DebuggerError("Incopatible structured types for assignment");
             }
-            std::map<std::string, TypedValue> result;
+            // Nothing is written unless everything can be.
             for (auto&& [name, val]: left.members) {
-                if (!right.members.contains(name)) {
+                if (!right.members.contains(name)
+                        || !AreAssignable(val, right.members.at(name))) {
                     throw DebuggerError("Incompatible structured type for assignment");
                 }
+            }
+            std::map<std::string, TypedValue> result;
+            for (auto&& [name, val]: left.members) {
                 result[name] = Assignment(std::move(val), std::move(right.members.at(name)));
             }
             left.members = std::move(result);
-- 
2.43.0

