From 7c766e62383c82164e746913776a07d3f5ee2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 01/30] fix: keep the order of the stacks when a stack stack is
 copied

---
 src/StackStack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index c0b3824..ddb5527 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -27,7 +27,7 @@ StackStack::StackStack(const StackStack& orig) :
 	stack()
 {
 	for(size_t i = 0; i < orig.size(); ++i){
-		stack.push_back(new Stack(orig.at(i)));
+		stack.push_back(new Stack(orig.at(orig.size()-i-1)));
 	}
 }
 
-- 
2.43.0


From 45e8c219a0f3072c39a0bf64ec31c5700d6becd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 02/30] fix: remove the stack at the given position, counted as
 insert counts it

---
 src/StackStack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index ddb5527..3464df2 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -73,7 +73,8 @@ void StackStack::insert(size_t pos){
 
 void StackStack::remove(size_t pos){
 	auto iter = stack.begin();
-	iter += stack.size()-pos-select;
+	iter += stack.size()-pos-select-1;
+	delete *iter;
 	stack.erase(iter);
 }
 
-- 
2.43.0


From bde61aa742210e687a263697625af85d7ae4032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 03/30] fix: give new stacks on the stack stack the current
 stack mode

---
 src/StackStack.cpp       | 7 ++++++-
 src/include/StackStack.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 3464df2..d6506e7 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -10,6 +10,7 @@ namespace Funge {
 
 StackStack::StackStack() :
 	select(0),
+	mode(),
 	stack()
 {
 	stack.push_back(new Stack());
@@ -24,6 +25,7 @@ StackStack::~StackStack()
 
 StackStack::StackStack(const StackStack& orig) :
 	select(orig.select),
+	mode(),
 	stack()
 {
 	for(size_t i = 0; i < orig.size(); ++i){
@@ -63,12 +65,14 @@ void StackStack::pop(){
 
 void StackStack::push(){
 	stack.push_back(new Stack());
+	stack.back()->setMode(mode);
 }
 
 void StackStack::insert(size_t pos){
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select;
-	stack.insert(iter, new Stack());
+	iter = stack.insert(iter, new Stack());
+	(*iter)->setMode(mode);
 }
 
 void StackStack::remove(size_t pos){
@@ -83,6 +87,7 @@ size_t StackStack::size() const{
 }
 
 void StackStack::setMode(FungeMode m){
+	mode = m;
 	for(auto s : stack){
 		s->setMode(m);
 	}
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 67f783f..2bd50bd 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -139,6 +139,7 @@ class StackStack {
 		
 	private:
 		size_t select;
+		FungeMode mode;
 		std::vector<Stack*> stack;
 };
 
-- 
2.43.0


From e1f59e70f6ca45ce4e6c3c0d11521a05d12ade7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 04/30] fix: wrap the torus after column 79 and row 24

---
 src/InstructionPointer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index 892c58d..dd2c7af 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -55,12 +55,12 @@ void InstructionPointer::next(){
 		pos += delta;
 		const Field& field = runner.getField();
 		if(runner.getUniverse().topology() == TOPO_TORUS){
-			if(pos.get(0) > 80){
+			if(pos.get(0) > 79){
 				pos.set(0, 0);
 			}else if(pos.get(0) < 0){
 				pos.set(0, 79);
 			}
-			if(pos.get(1) > 25){
+			if(pos.get(1) > 24){
 				pos.set(1, 0);
 			}else if(pos.get(1) < 0){
 				pos.set(1, 24);
-- 
2.43.0


From 27209e9b1536349490cb4ffbc0b7106a77eca343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 05/30] fix: update the bounds of Funge-space in every
 dimension

---
 src/Field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index c29e6ca..0e481f6 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -258,7 +258,7 @@ void Field::put(const Vector& p, inst_t v){
 		if(find != field.end()){
 			field.erase(find);
 		}
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
 			if(maxs[i] == p[i]){
 				// scan for new max
 				dim_t max = std::numeric_limits<dim_t>::min() ;
@@ -281,7 +281,7 @@ void Field::put(const Vector& p, inst_t v){
 			}
 		}
 	}else{
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
 			if(maxs[i] < p[i]){
 				maxs[i] = p[i];
 			}
-- 
2.43.0


From 517a0ea586ec921e9ba3f4fb47f57ab4ae92600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 06/30] fix: do not trap when the smallest value is divided by
 -1

---
 src/FishStrategy.cpp       | 2 +-
 src/Unefunge93Strategy.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 5035955..67b3ac4 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -238,7 +238,7 @@ FungeError FishStrategy::instructionModu(){
 	if(x == 0){
 		return ERROR_UNSPEC;
 	}
-	push(TOP, y % x);
+	push(TOP, x == -1 ? 0 : y % x); // y%-1 traps for the smallest y
 	return ERROR_NONE;
 }
 
diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 8da81ed..9db1971 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -123,6 +123,8 @@ FungeError Unefunge93Strategy::instructionRemainder(){
 	stack_t b = stack.top().pop();
 	if(a == 0){
 		stack.top().push(0);
+	}else if(a == -1){
+		stack.top().push(0); // b%-1 traps for the smallest b
 	}else{
 		stack.top().push(b%a);
 	}
@@ -155,6 +157,8 @@ FungeError Unefunge93Strategy::instructionDivide(){
 	stack_t b = stack.top().pop();
 	if(a == 0){
 		stack.top().push(0);
+	}else if(a == -1){
+		stack.top().push(0-b); // b/-1 traps for the smallest b
 	}else{
 		stack.top().push(b/a);
 	}
-- 
2.43.0


From f905aeda298108a94b197b9ca7a450adb88860e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 07/30] fix: print all of a stack value with .

---
 src/Unefunge93Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 9db1971..d3d67db 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -254,7 +254,7 @@ FungeError Unefunge93Strategy::instructionCharOut(){
 
 FungeError Unefunge93Strategy::instructionNumOut(){
 	stack_t x = stack.top().pop();
-	std::cout << static_cast<int>(x) << ' ';
+	std::cout << x << ' ';
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 9cedc5b4809a904576f10540d7c1565d8a34a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 08/30] fix: fetch and store whole cells with ' and s

---
 src/Unefunge98Strategy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c1089c7..db28af5 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -296,13 +296,13 @@ FungeError Unefunge98Strategy::instructionExecute(){
 
 FungeError Unefunge98Strategy::instructionFetch(){
 	ip.next();
-	stack.top().push((int)ip.get());
+	stack.top().push(static_cast<stack_t>(ip.get()));
 	return ERROR_NONE;
 }
 
 FungeError Unefunge98Strategy::instructionStore(){
 	ip.next();
-	ip.put((char)(int)stack.top().pop());
+	ip.put(stack.top().pop());
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 9a46920d6c3772ce6a305243e57e1105421db2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 09/30] fix: jump forward by all of a stack value

---
 src/Unefunge98Strategy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index db28af5..35b0913 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -86,11 +86,11 @@ FungeError Unefunge98Strategy::instructionJumpOver(){
 }
 
 FungeError Unefunge98Strategy::instructionJumpForward(){
-	int j = stack.top().pop();
+	stack_t j = stack.top().pop();
 	if(j < 0){
 		ip.reflect();
 	}
-	for(int i = 0; i < std::abs(j); i++){
+	for(stack_t i = 0; i < std::abs(j); i++){
 		ip.next();
 	}
 	if(j < 0){
-- 
2.43.0


From ca49fd002ef57a5cf877d36c63873d516a4af692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 10/30] fix: iterate the whole instruction cell by all of a
 stack value

---
 src/Unefunge98Strategy.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 35b0913..6801e52 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,7 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
-	char c = field.get(ip.getPos());
+	inst_t c = field.get(ip.getPos());
 	while(c == ' ' || c == ';'){
 		if(c == ';'){
 			do{
@@ -128,8 +128,8 @@ FungeError Unefunge98Strategy::instructionIterate(){
 		}
 	}
 	ip.setPos(v);
-	int k = stack.top().pop();
-	for(int i = 0; i < k; i++){
+	stack_t k = stack.top().pop();
+	for(stack_t i = 0; i < k; i++){
 		runner.execute(c);
 	}
 	if(k == 0){
-- 
2.43.0


From b00cbd18e03a44bd5065639ba98045eb894b1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 11/30] fix: do not truncate the argument of y

---
 src/Unefunge98Strategy.cpp       | 2 +-
 src/include/Unefunge98Strategy.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 6801e52..d02dd78 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -353,7 +353,7 @@ FungeError Unefunge98Strategy::instructionUnload(){
 	return ret;
 }
 
-void Unefunge98Strategy::pushSysInfo(int num){
+void Unefunge98Strategy::pushSysInfo(stack_t num){
 	const size_t s = runner.getUniverse().dimensions();
 	const stack_t tsize = stack.top().size();
 	int pushes = 0;
diff --git a/src/include/Unefunge98Strategy.h b/src/include/Unefunge98Strategy.h
index 8c16f6f..d82e647 100644
--- a/src/include/Unefunge98Strategy.h
+++ b/src/include/Unefunge98Strategy.h
@@ -49,7 +49,7 @@ class Unefunge98Strategy : public FungeStrategy {
 		FungeError instructionLoad();
 		FungeError instructionUnload();
 
-		void pushSysInfo(int num);
+		void pushSysInfo(stack_t num);
 		FingerprintStrategy finger;
 };
 
-- 
2.43.0


From 3958f79106b1ba6c9417241d95db71934f5e34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 12/30] fix: do not call isspace on cells that are not
 characters

---
 src/FungeStateString.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/FungeStateString.cpp b/src/FungeStateString.cpp
index 78cb7c0..06ddb7f 100644
--- a/src/FungeStateString.cpp
+++ b/src/FungeStateString.cpp
@@ -7,6 +7,7 @@
 #include "FungeStateString.h"
 #include "FungeRunner.h"
 #include "FungeUniverse.h"
+#include <climits>
 
 namespace Funge {
 
@@ -18,6 +19,11 @@ FungeStateString::FungeStateString(FungeRunner& r) :
 	
 }
 
+static bool isSpace(inst_t i){
+	// isspace is not defined for values that are not characters
+	return i >= 0 && i <= UCHAR_MAX && isspace(i);
+}
+
 void FungeStateString::escape(inst_t i){
 	stack_t code = i;
 	switch(i){
@@ -65,7 +71,7 @@ FungeError FungeStateString::execute(inst_t i){
 				runner.push(static_cast<stack_t>(i));
 				break;
 			case STRING_SGML:
-				if(!isspace(i) || !isspace(previous)){
+				if(!isSpace(i) || !isSpace(previous)){
 					runner.push(static_cast<stack_t>(i));
 					previous = i;
 				}else{
-- 
2.43.0


From fad96dcf691b2ef5f8f33fef5bf1c9c1ff5f538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 13/30] fix: keep a number that ends at the end of the input

---
 src/Unefunge93Strategy.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index d3d67db..7242617 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -212,9 +212,6 @@ FungeError Unefunge93Strategy::instructionNumIn(){
 	while(c >= '0' && c <= '9'){
 		num = (num*10) + (c-'0');
 		c = getchar();
-		if(c == EOF){
-			return ERROR_UNSPEC;
-		}
 	}
 	ungetc(c, stdin);
 	stack.top().push(num);
-- 
2.43.0


From c126e0923da008fa9cf55cb1eaa36556b2465150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 14/30] fix: do not shift an empty stack

---
 src/FishStrategy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 67b3ac4..74d208b 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -321,7 +321,9 @@ FungeError FishStrategy::instructionShiftLeft(){
 	for(stack_t i = len-1; i > 0; --i){
 		push(TOP, temp[i-1]);
 	}
-	push(TOP, temp[len-1]);
+	if(len > 0){
+		push(TOP, temp[len-1]);
+	}
 	return ERROR_NONE;
 }
 
@@ -332,7 +334,9 @@ FungeError FishStrategy::instructionShiftRight(){
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
-	push(TOP, temp[0]);
+	if(len > 0){
+		push(TOP, temp[0]);
+	}
 	for(stack_t i = len-1; i > 0; --i){
 		push(TOP, temp[i]);
 	}
-- 
2.43.0


From ae94d41cac85090d3f1a02b8cd81315a6b8ee971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 15/30] fix: push the value of the register when & empties it

---
 src/FishStrategy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 74d208b..37cea0d 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -442,6 +442,8 @@ FungeError FishStrategy::instructionRegister(){
 
 	FungeError ret = ERROR_UNSPEC;
 	if(top.set){
+		check_selected(selected);
+		push(TOP, top.value);
 		top.value = 0;
 		top.set = false;
 		ret = ERROR_NONE;
-- 
2.43.0


From 68722a0b39a31c307d4db1ea0949a724a06e06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 16/30] fix: keep the fraction of a value in the register

---
 src/include/FishStrategy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/FishStrategy.h b/src/include/FishStrategy.h
index 7654048..3c84ec3 100644
--- a/src/include/FishStrategy.h
+++ b/src/include/FishStrategy.h
@@ -93,7 +93,7 @@ class FishStrategy : public FungeStrategy {
 
 		struct reg {
 			bool set;
-			stack_t value;
+			double value;
 		};
 
 		std::stack<reg> regs;
-- 
2.43.0


From 1582009a4e1fa651769000356383c9ead1a13d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 17/30] fix: find a free name when more than two universes
 share one

---
 src/FungeMultiverse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index e240f2e..37ceab8 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -34,7 +34,7 @@ FungeUniverse* FungeMultiverse::create(std::istream& file, Field::FileFormat fmt
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(file, fmt, cfg);
 	uni->creator = creator;
@@ -50,7 +50,7 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(cfg);
 	universes[cfg.name] = uni;
-- 
2.43.0


From 3722580f8c9459160d4ed7b1e281f0ed3a4a76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 18/30] fix: keep the value when a vector is assigned to itself

---
 src/Vector.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Vector.cpp b/src/Vector.cpp
index 354659e..ecf8897 100644
--- a/src/Vector.cpp
+++ b/src/Vector.cpp
@@ -28,7 +28,6 @@ Vector::Vector(std::initializer_list<dim_t> v) :
 }
 
 Vector& Vector::operator=(const Vector& orig){
-	values.clear();
 	values = orig.values;
 	normalize();
 	return *this;
-- 
2.43.0


From c5135f3f5533ca7479ee92a55f8dbf6042085425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 19/30] fix: check the dimension before T of TOYS makes a
 vector of it

---
 src/fingerprint/FingerprintTOYS.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 29e7e69..d2e7bce 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -161,13 +161,10 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		} break;
 		case 'T':{
 			size_t n = static_cast<size_t>(stack.top().pop());
-			Vector v;
-			if(stack.top().pop() == 0){
-				v.set(n, 1);
-			}else{
-				v.set(n, -1);
-			}
+			stack_t dir = stack.top().pop();
 			if(runner.getUniverse().dimensions() > n){
+				Vector v;
+				v.set(n, (dir == 0) ? 1 : -1);
 				ip.setDelta(v);
 			}else{
 				ret = ERROR_UNSPEC;
-- 
2.43.0


From fa2bba396368110dddb0472eb3bfa2697bec8408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 20/30] fix: reflect when C or R of SUBR gets a negative count

---
 src/fingerprint/FingerprintSUBR.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fingerprint/FingerprintSUBR.cpp b/src/fingerprint/FingerprintSUBR.cpp
index c94ee4f..c2693d1 100644
--- a/src/fingerprint/FingerprintSUBR.cpp
+++ b/src/fingerprint/FingerprintSUBR.cpp
@@ -21,6 +21,9 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'C':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector va = popVector(runner);
 			stack_t pops[n];
 			for(stack_t i = 0; i < n; ++i){
@@ -50,6 +53,9 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			stack_t pops[n];
 			for(stack_t i = 0; i < n; ++i){
 				pops[i] = stack.top().pop();
-- 
2.43.0


From 9a19fd987febd2a26cf43179c9bfbcc680a91fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 21/30] fix: leave an empty stack alone when FISH shifts it

---
 src/fingerprint/FingerprintFISH.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fingerprint/FingerprintFISH.cpp b/src/fingerprint/FingerprintFISH.cpp
index 5816128..35c0638 100644
--- a/src/fingerprint/FingerprintFISH.cpp
+++ b/src/fingerprint/FingerprintFISH.cpp
@@ -67,6 +67,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'L':{
 			stack_t len = stack.top().size();
+			if(len == 0){
+				break;
+			}
 			stack_t temp[len];
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
@@ -98,6 +101,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'R':{
 			stack_t len = stack.top().size();
+			if(len == 0){
+				break;
+			}
 			stack_t temp[len];
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
-- 
2.43.0


From 44a121e603ed6aa339faf75a97342deed83d2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 22/30] fix: make push and pop of the stack stack act where top
 and second look

---
 src/StackStack.cpp         | 18 +++++++++++-------
 src/Unefunge98Strategy.cpp |  4 ++--
 src/include/StackStack.h   |  6 ++++++
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index d6506e7..557676d 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -18,8 +18,8 @@ StackStack::StackStack() :
 
 StackStack::~StackStack()
 {
-	while(stack.size() > 0){
-		pop();
+	for(auto s : stack){
+		delete s;
 	}
 }
 
@@ -58,14 +58,14 @@ const Stack& StackStack::at(size_t x) const{
 }
 
 void StackStack::pop(){
-	Stack* old = stack.back();
-	stack.pop_back();
-	delete old;
+	remove(0);
+	if(select > 0 && select >= stack.size()){
+		--select;
+	}
 }
 
 void StackStack::push(){
-	stack.push_back(new Stack());
-	stack.back()->setMode(mode);
+	insert(0);
 }
 
 void StackStack::insert(size_t pos){
@@ -86,6 +86,10 @@ size_t StackStack::size() const{
 	return stack.size();
 }
 
+bool StackStack::hasSecond() const{
+	return select+1 < stack.size();
+}
+
 void StackStack::setMode(FungeMode m){
 	mode = m;
 	for(auto s : stack){
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index d02dd78..b3a0bc7 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -162,7 +162,7 @@ FungeError Unefunge98Strategy::instructionClear(){
 
 FungeError Unefunge98Strategy::instructionUnder(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.hasSecond()){
 		const stack_t n = stack.top().pop();
 		if(n > 0){
 			for(stack_t i = 0; i < n; ++i){
@@ -209,7 +209,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 
 FungeError Unefunge98Strategy::instructionEnd(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.hasSecond()){
 		const stack_t n = stack.top().pop();
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 2bd50bd..331b0de 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -117,6 +117,12 @@ class StackStack {
 		 */
 		size_t size() const;
 
+		/**
+		 * Determine if there is a stack below the selected one.
+		 * @retval true if second() exists.
+		 */
+		bool hasSecond() const;
+
 		/**
 		 * Set the stack mode.
 		 * @param m New mode.
-- 
2.43.0


From f5a837fe12abcc1374d97490a7409d2f48d83f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 23/30] fix: DBUG: bind its instructions when it is loaded

---
 src/fingerprint/FingerprintDBUG.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index 5fb2421..843edd9 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -16,6 +16,7 @@ FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
 {}
 
 void FingerprintDBUG::activate(){
+	Fingerprint::activate();
 	dbg = &runner.getUniverse().getDebugger();
 }
 
-- 
2.43.0


From a1b8e546fad260d6c655563036c34827496912e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 24/30] fix: DIRF: do nothing when filesystem access is
 disabled

---
 src/fingerprint/FingerprintDIRF.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index 85c99dd..febe036 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintDIRF.h"
 #include "FungeUtilities.h"
+#include "FungeUniverse.h"
 #include<filesystem>
 
 namespace Funge {
@@ -16,6 +17,9 @@ FingerprintDIRF::FingerprintDIRF(FungeRunner& r) :
 
 FungeError FingerprintDIRF::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
+	if(!runner.getUniverse().allowFilesystem()){
+		return ERROR_NOTAVAIL;
+	}
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-- 
2.43.0


From 98aedf4ff1b45a84e6b33e6156ca611c41f1316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 25/30] fix: DIRF: a failing directory operation reflects
 instead of ending the interpreter

---
 src/fingerprint/FingerprintDIRF.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index febe036..a4f64e4 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -20,23 +20,33 @@ FungeError FingerprintDIRF::execute(inst_t cmd){
 	if(!runner.getUniverse().allowFilesystem()){
 		return ERROR_NOTAVAIL;
 	}
+	std::error_code err;
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::current_path(dir);
+			if(std::filesystem::is_directory(dir, err)){
+				std::filesystem::current_path(dir, err);
+				if(err){
+					ret = ERROR_UNSPEC;
+				}
 			}else{
 				ret = ERROR_UNSPEC;
 			}
 		} break;
 		case 'M':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			std::filesystem::create_directory(dir);
+			std::filesystem::create_directory(dir, err);
+			if(err){
+				ret = ERROR_UNSPEC;
+			}
 		} break;
 		case 'R':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::remove(dir);
+			if(std::filesystem::is_directory(dir, err)){
+				std::filesystem::remove(dir, err);
+				if(err){
+					ret = ERROR_UNSPEC;
+				}
 			}else{
 				ret = ERROR_UNSPEC;
 			}
-- 
2.43.0


From 776167b2803aa5a0cc86102f60c639cbd571b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 26/30] fix: i pushes the popped vector, not the one with the
 storage offset added

---
 src/Unefunge98Strategy.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index b3a0bc7..d5531b8 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -243,10 +243,9 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		std::string filepath = popString(stack.top());
 		stack_t flags = stack.top().pop();
 		Vector va = popVector(runner);
-		va += ip.getStorage();
 		std::ifstream file(filepath);
 		if(!file.fail()){
-			Vector vb = field.parse(va, file, !!(flags & FILE_IN_BINARY));
+			Vector vb = field.parse(va+ip.getStorage(), file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
 		}else{
-- 
2.43.0


From 29d600ca3fe63c2ffa428973bc9ae8e1c65d93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 27/30] fix: line ends do not start a second row when a
 one-dimensional space is loaded

---
 src/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 0e481f6..9698226 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -62,7 +62,7 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 					file.get();
 				}
 			}
-			if(last != '\f' && last != '\v'){
+			if(dims != 1 && last != '\f' && last != '\v'){
 				increment(1, v, max);    // ++y
 				reset(0, v, start, max); // x = 0
 			}
-- 
2.43.0


From 418b1b04b4c90631d7319601385380c2dc12d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 28/30] fix: only the line end directly after a form feed is
 part of it

---
 src/Field.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Field.cpp b/src/Field.cpp
index 9698226..9191649 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -66,6 +66,7 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 				increment(1, v, max);    // ++y
 				reset(0, v, start, max); // x = 0
 			}
+			last = i;
 		}else if((i == '\f') && !binary){
 			if(dims == 0 || dims >= 3){
 				reset(0, v, start, max); // x = 0
-- 
2.43.0


From a49df661037866d144c2459512d97ce7faafaff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 29/30] fix: o writes the whole row of a one-dimensional region

---
 src/Field.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 9191649..5caf388 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -209,9 +209,9 @@ void Field::dump(const Vector& start, const Vector& delta, std::ostream& file, b
 			}
 			v.set(1, v[1]+1);   // ++y
 			v.set(0, start[0]); // x = 0
-		}
-		if(v[1] >= end[1]){
-			break;
+			if(v[1] >= end[1]){
+				break;
+			}
 		}
 	}
 }
-- 
2.43.0


From 84f21a2020c750bc0cdd7835414e789edf19b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 30/30] fix: ><>: values keep their order when they move to a
 new stack and back

---
 src/FishStrategy.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 37cea0d..9466b80 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -362,8 +362,12 @@ FungeError FishStrategy::instructionCreateStack(){
 
 	stack.insert(selected);
 	check_stack(second, x);
+	double temp[x];
 	for(size_t i = 0; i < x; ++i){
-		push(TOP, pop(SECOND));
+		temp[i] = pop(SECOND);
+	}
+	for(size_t i = x; i > 0; --i){
+		push(TOP, temp[i-1]);
 	}
 	regs.push({false, 0});
 	return ERROR_NONE;
@@ -372,8 +376,13 @@ FungeError FishStrategy::instructionCreateStack(){
 FungeError FishStrategy::instructionRemoveStack(){
 	check_selected(selected);
 	check_selected(selected+1);
-	while(stack.top().size() > 0){
-		push(SECOND, pop(TOP));
+	stack_t len = stack.top().size();
+	double temp[len];
+	for(stack_t i = 0; i < len; ++i){
+		temp[i] = pop(TOP);
+	}
+	for(stack_t i = len; i > 0; --i){
+		push(SECOND, temp[i-1]);
 	}
 	stack.pop();
 	regs.pop();
-- 
2.43.0

