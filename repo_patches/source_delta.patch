From 7f7f7b752137f99b7adac241f98647e52a76434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 001/126] fix: order and equality of Zero, Int and Real are
 consistent and regard the shape

---
 symbolics/Int.cpp                 |  4 ++--
 symbolics/Real.cpp                |  4 ++--
 symbolics/Zero.cpp                | 30 ++++++++++++++++++++++++++++++
 symbolics/functions/Operators.cpp | 30 ++++++------------------------
 symbolics/include/Zero.h          |  4 ++--
 5 files changed, 42 insertions(+), 30 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 44d2004..b7fe71d 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -79,7 +79,7 @@ bool Int::operator==(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return m_value == 0;
         }
     case Type_Bool:
@@ -161,7 +161,7 @@ bool Int::operator<(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            return m_value < 0;
+            return !rhs.is_Scalar() || (m_value < 0);
         }
     case Type_Bool:
         {
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 337a7dc..a948eeb 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -65,7 +65,7 @@ bool Real::operator==(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return m_value == 0.0;
         }
     case Type_Bool:
@@ -147,7 +147,7 @@ bool Real::operator<(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            return m_value < 0.0; 
+            return !rhs.is_Scalar() || (m_value < 0.0); 
         }
     case Type_Bool:
         {
diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index d22e29b..ebf4c8d 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -46,6 +46,9 @@ Zero::~Zero()
 bool Zero::operator==(  Basic const& rhs ) const
 /*****************************************************************************/
 {
+    // e.g. a zero vector is not equal to the number 0
+    if (getShape() != rhs.getShape())
+        return false;
     // Typ pruefen
     switch (rhs.getType())
     {
@@ -80,6 +83,25 @@ bool Zero::operator==(  Basic const& rhs ) const
 }
 /*****************************************************************************/
  
+/*****************************************************************************/
+bool Zero::operator<(  Basic const& rhs ) const
+/*****************************************************************************/
+{
+    // numbers are sorted by their value, a zero vector or matrix follows them
+    switch (rhs.getType())
+    {
+    case Type_Zero:
+        return getShape() < rhs.getShape();
+    case Type_Int:
+        return is_Scalar() && (0 < dynamic_cast<const Int&>(rhs).getValue());
+    case Type_Real:
+        return is_Scalar() && (0.0 < dynamic_cast<const Real&>(rhs).getValue());
+    default:
+        return getType() < rhs.getType();
+    }
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
  BasicPtr Zero::subs( ConstBasicPtr const& old_exp, BasicPtr const& new_exp)
 /*****************************************************************************/
@@ -120,6 +142,8 @@ BasicPtr Zero::getZero(Shape const& s)
 bool Symbolics::operator== (Zero const& lhs, BasicPtr  const& rhs)
 /*****************************************************************************/
 {
+    if (lhs.getShape() != rhs->getShape())
+        return false;
     if (rhs->getType() == Type_Zero)
     {
         return lhs.getShape() == rhs->getShape();
@@ -152,6 +176,8 @@ bool Symbolics::operator== (Zero const& lhs, BasicPtr  const& rhs)
 bool Symbolics::operator== (BasicPtr const& lhs, Zero  const& rhs)
 /*****************************************************************************/
 {
+    if (lhs->getShape() != rhs.getShape())
+        return false;
     if (lhs->getType() == Type_Zero)
     {
         return lhs->getShape() == rhs.getShape();
@@ -185,6 +211,8 @@ bool Symbolics::operator== (BasicPtr const& lhs, Zero  const& rhs)
 bool Symbolics::operator!= (Zero const& lhs, BasicPtr  const& rhs)
 /*****************************************************************************/
 {
+    if (lhs.getShape() != rhs->getShape())
+        return true;
     if (rhs->getType() == Type_Zero)
     {
         return lhs.getShape() != rhs->getShape();
@@ -216,6 +244,8 @@ bool Symbolics::operator!= (Zero const& lhs, BasicPtr  const& rhs)
 bool Symbolics::operator!= (BasicPtr const& lhs, Zero  const& rhs)
 /*****************************************************************************/
 {
+    if (lhs->getShape() != rhs.getShape())
+        return true;
     if (lhs->getType() == Type_Zero)
     {
         return lhs->getShape() != rhs.getShape();;
diff --git a/symbolics/functions/Operators.cpp b/symbolics/functions/Operators.cpp
index 795c072..f18fe78 100644
--- a/symbolics/functions/Operators.cpp
+++ b/symbolics/functions/Operators.cpp
@@ -19,29 +19,11 @@ bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
     // zuerst den Typ vergleichen
     // Ausnamen fuer Zero
     if ((lhs->getType() == Type_Zero) &&
-        (rhs->getType() == Type_Real))
-    {
-        const Real *cd = Util::getAsConstPtr<Real>(rhs);
-        return 0.0 < cd->getValue();
-    }
-    if ((lhs->getType() == Type_Real) &&
-        (rhs->getType() == Type_Zero))
-    {
-        const Real *cd = Util::getAsConstPtr<Real>(lhs);
-        return cd->getValue() < 0.0;
-    }
-    if ((lhs->getType() == Type_Zero) &&
-        (rhs->getType() == Type_Int))
-    {
-        const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return 0 < ci->getValue();
-    }
-    if ((lhs->getType() == Type_Int) &&
-        (rhs->getType() == Type_Zero))
-    {
-        const Int *ci = Util::getAsConstPtr<Int>(lhs);
-        return ci->getValue() < 0;
-    }
+        ((rhs->getType() == Type_Real) || (rhs->getType() == Type_Int)))
+        return (*lhs.get() < *rhs.get());
+    if ((rhs->getType() == Type_Zero) &&
+        ((lhs->getType() == Type_Real) || (lhs->getType() == Type_Int)))
+        return (*lhs.get() < *rhs.get());
     // Ausnahme fuer Int==Dbl und andersherum
     if ((lhs->getType() == Type_Int) &&
         (rhs->getType() == Type_Real))
@@ -55,7 +37,7 @@ bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
     {
         const Real *cd = Util::getAsConstPtr<Real>(lhs);
         const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return (*ci) < (*cd);
+        return (*cd) < (*ci);
     }
     // Vergleich Type
     if (lhs->getType() != rhs->getType())
diff --git a/symbolics/include/Zero.h b/symbolics/include/Zero.h
index 080d415..ad46482 100644
--- a/symbolics/include/Zero.h
+++ b/symbolics/include/Zero.h
@@ -20,8 +20,8 @@ namespace Symbolics
         inline BasicPtr simplify() { return BasicPtr(this); };
 
         bool operator==(  Basic const& rhs ) const;
-        bool operator!=(  Basic const& rhs ) const { return m_type != rhs.getType(); };
-        bool operator<( Basic const& rhs ) const { return m_type < rhs.getType(); };
+        bool operator!=(  Basic const& rhs ) const { return !(operator==(rhs)); };
+        bool operator<( Basic const& rhs ) const;
 
         template< typename T >
         BasicPtr operator* ( T const& t) { return BasicPtr(this); };
-- 
2.43.0


From 9c6e23bda0ef91c89f0d3a27842d2e402de019ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 002/126] fix: Matrix iterates over stored elements
 (SymmetricMatrix packing, transposed loops)

---
 symbolics/Matrix.cpp       | 31 +++++++++++++++++++------------
 symbolics/include/Matrix.h |  5 +++--
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index 59c2906..a8763ef 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -810,8 +810,9 @@ Matrix Matrix::operator-() const
     Matrix tmp( m_shape );
 
     // Nun alles kopieren
-    for(size_t i=0; i<getNumEl(); ++i)
-        tmp.set(i,-get(i));
+    for( size_t m=0; m<m_shape.getDimension(1); m++)
+        for( size_t n=0; n<m_shape.getDimension(2); n++)
+            tmp.set(m,n,-get(m,n));
 
     // fertig
     return tmp;
@@ -847,8 +848,11 @@ BasicPtr Matrix::der()
     Matrix *tmp = new Matrix( m_shape );
 
     // Nun alles differenzieren
-    for(size_t i=0; i<getNumEl(); ++i)
-        tmp->set(i,get(i)->der());
+    size_t rows = m_shape.getDimension(1);
+    size_t cols = m_shape.getDimension(2);
+    for (size_t m=0; m<rows; ++m)
+        for (size_t n=0; n<cols; ++n)
+            tmp->set(m,n,get(m,n)->der());
 
     // fertig
     return BasicPtr(tmp);
@@ -863,8 +867,11 @@ BasicPtr Matrix::der(BasicPtr const& symbol)
     Matrix *tmp = new Matrix( m_shape );
 
     // Nun alles differenzieren
-    for(size_t i=0; i<getNumEl(); ++i)
-        tmp->set(i,get(i)->der(symbol));
+    size_t rows = m_shape.getDimension(1);
+    size_t cols = m_shape.getDimension(2);
+    for (size_t m=0; m<rows; ++m)
+        for (size_t n=0; n<cols; ++n)
+            tmp->set(m,n,get(m,n)->der(symbol));
 
     // fertig
     return BasicPtr(tmp);
@@ -931,7 +938,7 @@ Matrix Symbolics::operator+ (Int const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs + c(i));
     // Rueckgabe
     return c;
@@ -945,7 +952,7 @@ Matrix Symbolics::operator+ (Real const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs + c(i));
     // Rueckgabe
     return c;
@@ -976,7 +983,7 @@ Matrix Symbolics::operator- (Int const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs - c(i));
     // Rueckgabe
     return c;
@@ -990,7 +997,7 @@ Matrix Symbolics::operator- (Real const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs - c(i));
     // Rueckgabe
     return c;
@@ -1021,7 +1028,7 @@ Matrix Symbolics::operator* (Int const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs * c(i));
     // Rueckgabe
     return c;
@@ -1035,7 +1042,7 @@ Matrix Symbolics::operator* (Real const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Multiplication
     // Wert multiplizieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs * c(i));
     // Rueckgabe
     return c;
diff --git a/symbolics/include/Matrix.h b/symbolics/include/Matrix.h
index 5d61743..91226af 100644
--- a/symbolics/include/Matrix.h
+++ b/symbolics/include/Matrix.h
@@ -113,8 +113,9 @@ namespace Symbolics
             Matrix* mat = new Matrix(getShape());
 
             // mit Elementen fuellen
-            for(size_t i=0; i<getNumEl(); ++i)
-                mat->set(i, f( getArg(i) ));
+            for(size_t i=0; i<getShape().getDimension(1); ++i)
+                for(size_t j=0; j<getShape().getDimension(2); ++j)
+                    mat->set(i,j, f( get(i,j) ));
 
             mat->m_simplified=true;
             // fertig
-- 
2.43.0


From f6c36fa261eb361dbb6a2af498d48d5df8216390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 003/126] fix: product of (n,1) and (1,m) operands has a two
 dimensional shape

---
 symbolics/Shape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/Shape.cpp b/symbolics/Shape.cpp
index 90ccdcf..00ac239 100644
--- a/symbolics/Shape.cpp
+++ b/symbolics/Shape.cpp
@@ -181,6 +181,9 @@ Shape& Shape::operator*= ( Shape const& rhs)
     // Matrix * Matrix
     m_ndim = min(getNrDimensions(), rhs.getNrDimensions());
     m_dim2 = rhs.getDimension(2);
+    // e.g. (n,1)*vector(1,m) is no vector
+    if ((m_dim1 != 1) && (m_dim2 != 1))
+        m_ndim = 2;
     m_numElem = m_dim1*m_dim2;    
     
 
-- 
2.43.0


From af869cb107d39e116bc43e2a243b8b49f4d6d43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 004/126] fix: Util::is_One of a negated number

---
 symbolics/functions/Util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Util.cpp b/symbolics/functions/Util.cpp
index 42341e4..b62138b 100644
--- a/symbolics/functions/Util.cpp
+++ b/symbolics/functions/Util.cpp
@@ -189,7 +189,8 @@ bool Util::is_One( BasicPtr const& e)
     {
         const Basic *b = e.get();
         const Neg *c = dynamic_cast<const Neg*>(b);
-        return is_One(c->getArg());
+        BasicPtr neg = Neg::New(c->getArg());
+        return (neg->getType() != Type_Neg) && is_One(neg);
     }
     default:
         return false;
-- 
2.43.0


From 7f412bbb67847a582d20e604c0ef7195d776c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 005/126] fix: matrix powers: derivative, refusal of non-square
 bases, merging of exponents

---
 symbolics/functions/Pow.cpp       | 61 ++++++++++++++++++++++++++-----
 symbolics/functions/include/Pow.h |  3 ++
 2 files changed, 55 insertions(+), 9 deletions(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 5d4dc21..7b855aa 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -213,10 +213,11 @@ BasicPtr Pow::simplify()
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(getArg1());
-            setArg2(getArg2()*c->getExponent()->simplify());
-            setArg1(c->getBase());
-            m_simplified = true;
-            return BasicPtr(this);
+            // (x^a)^b = x^(a*b) does not hold for a negative x if b is no integer
+            int iExp = 0;
+            if (!Util::is_Int(getArg2(), iExp))
+                break;
+            return New(c->getBase(),Mul::New(getArg2(),c->getExponent()))->simplify();
         }
         // move neg to front in case of round number remove it
     case Type_Neg:
@@ -225,11 +226,11 @@ BasicPtr Pow::simplify()
 
             // try arg2 as integer
             int iExp = 0;
-            if ( Util::is_Int(getArg2(), iExp) && (iExp%2==0))
+            if (!Util::is_Int(getArg2(), iExp))
+                break;
+            if (iExp%2==0)
             {
-                setArg1(c->getArg());
-                m_simplified = true;
-                return BasicPtr(this);
+                return New(c->getArg(),getArg2())->simplify();
             }
 
             // swap neg and pow
@@ -246,6 +247,12 @@ BasicPtr Pow::simplify()
 BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    // the shortcuts below must not hide that arg1 has no power
+    if (arg1->is_Vector())
+        throw ShapeError("Pow is not defined for vectors!");
+    if (arg1->getShape().getDimension(1) != arg1->getShape().getDimension(2))
+        throw ShapeError("Pow is only defined for square matrices!");
+
     // if arg2 == 0, then return One
     if (arg2 == Zero::getZero() ) return Int::getOne();
     if (arg2 == Int::getOne() ) return arg1;
@@ -359,6 +366,10 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(arg1);
+            // (x^a)^b = x^(a*b) does not hold for a negative x if b is no integer
+            int iExp = 0;
+            if (!Util::is_Int(arg2, iExp))
+                break;
             return New(c->getBase(),Mul::New(arg2,c->getExponent()));
         }
         // move neg to front in case of round number remove it
@@ -369,7 +380,9 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
             // try arg2 as integer
             BasicPtr arg_1 = c->getArg();
             int iExp = 0;
-            if ( Util::is_Int(arg2, iExp) && (iExp%2==0))
+            if (!Util::is_Int(arg2, iExp))
+                break;
+            if (iExp%2==0)
             {
                 return New(arg_1,arg2);
             }
@@ -382,10 +395,38 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+BasicPtr Pow::derMatrix( BasicPtr const& derbase )
+/*****************************************************************************/
+{
+  // matrices do not commute: der(A^n) = sum A^k*der(A)*A^(n-1-k)
+  int n = 0;
+  if (!Util::is_Int(getExponent(),n))
+    throw InternalError("Derivative of a matrix with the exponent " + getExponent()->toString() + " is not supported!");
+  BasicPtr sum = Zero::getZero(m_shape);
+  int num = (n < 0) ? -n : n;
+  for (int k=0; k<num; ++k)
+  {
+    BasicPtr term = derbase;
+    if (k > 0)
+      term = Mul::New(New(getBase(),Int::New(k)),term);
+    if (k < num-1)
+      term = Mul::New(term,New(getBase(),Int::New(num-1-k)));
+    sum = Add::New(sum,term);
+  }
+  // der(A^-n) = -A^-n*der(A^n)*A^-n
+  if (n < 0)
+    sum = Neg::New(Mul::New(BasicPtr(this),Mul::New(sum,BasicPtr(this))));
+  return sum;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 inline BasicPtr Pow::der()
 /*****************************************************************************/
 {
+  if (!getBase()->is_Scalar())
+    return derMatrix(getBase()->der());
   // pow(x,y) = der(x)*y*pow(x,y-1)
   return Mul::New(getExponent(),Mul::New(getBase()->der(),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
 }
@@ -395,6 +436,8 @@ inline BasicPtr Pow::der()
 inline BasicPtr Pow::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
+  if (!getBase()->is_Scalar())
+    return derMatrix(getBase()->der(symbol));
   // pow(x,y) = der(x)*y*pow(x,y-1)
   return Mul::New(getExponent(),Mul::New(getBase()->der(symbol),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
 }
diff --git a/symbolics/functions/include/Pow.h b/symbolics/functions/include/Pow.h
index 8b5a3ae..c22dbcd 100644
--- a/symbolics/functions/include/Pow.h
+++ b/symbolics/functions/include/Pow.h
@@ -36,6 +36,9 @@ namespace Symbolics
         BasicPtr der();
         BasicPtr der(BasicPtr const& symbol);
 
+    private:
+        BasicPtr derMatrix( BasicPtr const& derbase );
+
 	protected:
 		void validate();
     };
-- 
2.43.0


From 52f5df8309e97cc998b22747f982266513829ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 006/126] fix: Mul keeps scalar products together and compares
 all scalar factors

---
 symbolics/functions/Mul.cpp | 46 +++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index f35de60..556750d 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -9,6 +9,31 @@
 
 using namespace Symbolics;
 
+/*****************************************************************************/
+// A^0 of a matrix is the identity of its shape
+static BasicPtr mergePow( BasicPtr const& base, BasicPtr const& exponent )
+/*****************************************************************************/
+{
+    if (!base->is_Scalar() && (exponent == Zero::getZero()))
+        return Util::eye(base->getShape());
+    return BasicPtr(new Pow(base,exponent));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+// A product which is a scalar but has factors that are not (a scalar product)
+// must stay one factor: its vectors must not be multiplied with other factors.
+static bool canFlatten( BasicPtr const& arg )
+/*****************************************************************************/
+{
+    if (arg->getType() != Type_Mul) return false;
+    if (!arg->is_Scalar()) return true;
+    for (size_t i=0; i<arg->getArgsSize(); ++i)
+        if (!arg->getArg(i)->is_Scalar()) return false;
+    return true;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 Mul::Mul( BasicPtr const& arg1, BasicPtr const& arg2 ): NaryOp(Type_Mul, arg1, arg2)
 /*****************************************************************************/
@@ -73,7 +98,7 @@ BasicPtr Mul::simplify()
             addArg(Zero::getZero(m_shape));
             return getArg(0);
         }
-        else if (getArg(i)->getType() == Type_Mul)
+        else if (canFlatten(getArg(i)))
         {
             const Mul *a = Util::getAsConstPtr<Mul>(getArg(i));
             size_t argssize = a->getArgsSize();
@@ -91,7 +116,7 @@ BasicPtr Mul::simplify()
             const Neg *n = Util::getAsConstPtr<Neg>(getArg(i));
             BasicPtr narg = n->getArg();
             negate_me = !negate_me;
-            if (narg->getType() == Type_Mul)
+            if (canFlatten(narg))
             {
                 const Mul *a = Util::getAsConstPtr<Mul>(narg);
                 size_t argssize = a->getArgsSize();
@@ -195,11 +220,11 @@ BasicPtr Mul::simplify()
             // mul them
             lastarg = New(lastarg,dst[i]);
         }
-        else if (Util::is_One(lastarg) && (!dst[i]->is_Scalar()))
+        else if (Util::is_One(lastarg) && (!lastarg->is_Vector()) && (!dst[i]->is_Scalar()))
         {
           lastarg=dst[i];
         }
-        else if (Util::is_One(dst[i]) && (!lastarg->is_Scalar()))
+        else if (Util::is_One(dst[i]) && (!dst[i]->is_Vector()) && (!lastarg->is_Scalar()))
         {
           continue;
         }
@@ -207,7 +232,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(lastarg);
             if (dst[i] == c->getBase())
-              lastarg = BasicPtr(new Pow(dst[i],Add::New(c->getExponent(),Int::getOne())));
+              lastarg = mergePow(dst[i],Add::New(c->getExponent(),Int::getOne()));
             else
             {
               addArg(lastarg->simplify());
@@ -218,7 +243,8 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
-              lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+              lastarg = mergePow(lastarg,Add::New(c->getExponent(),Int::getOne()));
+            else
             {
               addArg(lastarg->simplify());
               lastarg = dst[i];
@@ -299,7 +325,7 @@ bool Mul::operator==(  Basic const& rhs ) const
     case 0:
         return true;
     case 1:
-        return (m_scalars[0] == mul->getArg(0));
+        return (m_scalars[0] == rhs_scalars[0]);
     case 2:
         return (((m_scalars[0] == rhs_scalars[0]) && (m_scalars[1] == rhs_scalars[1])) ||
                 ((m_scalars[0] == rhs_scalars[1]) && (m_scalars[1] == rhs_scalars[0])));
@@ -448,7 +474,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             return BasicPtr(c);
         }
     }
-    if (lhs->getType() == Type_Mul)
+    if (canFlatten(lhs))
     {
         BasicPtrVec mulargs;
         const Mul *a = Util::getAsConstPtr<Mul>(lhs);
@@ -456,7 +482,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         for (size_t j=0; j<argssize; ++j)
           mulargs.push_back(a->getArg(j));
 
-        if (rhs->getType() == Type_Mul)
+        if (canFlatten(rhs))
         {
           const Mul *b = Util::getAsConstPtr<Mul>(rhs);
           size_t argssize = b->getArgsSize();
@@ -467,7 +493,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             mulargs.push_back(rhs);
         return BasicPtr(new Mul(mulargs));
     }
-    if (rhs->getType() == Type_Mul)
+    if (canFlatten(rhs))
     {
         BasicPtrVec mulargs;
         mulargs.push_back(lhs);
-- 
2.43.0


From 65f94d1f12190cb18500e78dce37d7d8b45cc16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 007/126] fix: Add of matrices and scalars keeps all terms

---
 symbolics/functions/Add.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 762ab19..f9d6e25 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -247,7 +247,11 @@ BasicPtr Add::simplify()
     {
       BasicPtrVec scalars;
       BasicPtrVec matrixes;
-      bool hasMatZero;
+      bool hasMatZero = (other_args1.size() > 0);
+      // without any non scalar argument left the scalars have to fill the whole shape
+      for (size_t i=0; i<other_args1.size(); ++i)
+        if (!other_args1[i]->is_Scalar())
+          hasMatZero = false;
       for (size_t i=0; i<other_args1.size(); ++i)
       {
         if (other_args1[i]->getType() == Type_Matrix)
@@ -283,6 +287,7 @@ BasicPtr Add::simplify()
             Matrix *c = new Matrix( *(Util::getAsConstPtr<Matrix>(matrixes[0])) );
             for (size_t i=0; i<c->getNumEl(); ++i)
               c->set(i,c->get(i)+s);
+            addArg(BasicPtr(c));
           }
           else
             addArg(matrixes[0]);
@@ -293,7 +298,7 @@ BasicPtr Add::simplify()
           for (size_t i=1; i<matrixes.size(); ++i)
           {
             const Matrix *m = Util::getAsConstPtr<Matrix>(matrixes[i]);
-            *mat *= (*m); 
+            *mat += (*m); 
           }
           if (scalars.size() > 0)
           {
-- 
2.43.0


From 949e5043a5bf168c56ee229590c4d517a5f9c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 008/126] fix: elementwise derivative of functions of vectors
 and matrices, derivative of Sign

---
 symbolics/functions/Abs.cpp               |  9 +++++++--
 symbolics/functions/Acos.cpp              |  3 +++
 symbolics/functions/Asin.cpp              |  3 +++
 symbolics/functions/Atan.cpp              |  3 +++
 symbolics/functions/Cos.cpp               |  3 +++
 symbolics/functions/Sign.cpp              |  6 ++++--
 symbolics/functions/Sin.cpp               |  3 +++
 symbolics/functions/Tan.cpp               |  3 +++
 symbolics/functions/include/Elementwise.h | 24 +++++++++++++++++++++++
 9 files changed, 53 insertions(+), 4 deletions(-)
 create mode 100644 symbolics/functions/include/Elementwise.h

diff --git a/symbolics/functions/Abs.cpp b/symbolics/functions/Abs.cpp
index 77ef156..0c6f092 100644
--- a/symbolics/functions/Abs.cpp
+++ b/symbolics/functions/Abs.cpp
@@ -1,4 +1,5 @@
 #include "Abs.h"
+#include "Elementwise.h"
 #include "Neg.h"
 #include "Pow.h"
 #include "Util.h"
@@ -93,7 +94,8 @@ BasicPtr Abs::simplify()
         {
             const Pow *p = Util::getAsConstPtr<Pow>(getArg());
             int exp;
-            if (Util::is_Int(p->getArg2(), exp))
+            // gilt nur fuer Skalare: die Elemente von A*A koennen negativ sein
+            if (p->is_Scalar() && Util::is_Int(p->getArg2(), exp))
                 // Ist der Exponent auch gerade?
                 if ((exp%2)==0)
                     return getArg();
@@ -153,7 +155,8 @@ BasicPtr Abs::New( BasicPtr const& arg)
         {
             const Pow *p = Util::getAsConstPtr<Pow>(arg);
             int exp;
-            if (Util::is_Int(p->getArg2(), exp))
+            // gilt nur fuer Skalare: die Elemente von A*A koennen negativ sein
+            if (p->is_Scalar() && Util::is_Int(p->getArg2(), exp))
                 // Ist der Exponent auch gerade?
                 if ((exp%2)==0)
                     return arg;
@@ -174,6 +177,7 @@ BasicPtr Abs::New( BasicPtr const& arg)
 BasicPtr Abs::der()
 /*****************************************************************************/
 { 
+  if (!is_Scalar()) return derElementwise<Abs>(getArg(),NULL);
   // der(abs(x)) = sign(x)*der(x)
   BasicPtr derarg = getArg()->der();
   return Mul::New(Sign::New(getArg()),getArg()->der()); 
@@ -184,6 +188,7 @@ BasicPtr Abs::der()
 BasicPtr Abs::der(BasicPtr const& symbol)
 /*****************************************************************************/
 { 
+  if (!is_Scalar()) return derElementwise<Abs>(getArg(),&symbol);
   // der(abs(x)) = sign(x)*der(x)
   BasicPtr derarg = getArg()->der(symbol);
   return Mul::New(Sign::New(getArg()),getArg()->der(symbol)); 
diff --git a/symbolics/functions/Acos.cpp b/symbolics/functions/Acos.cpp
index 2327076..e62f7f3 100644
--- a/symbolics/functions/Acos.cpp
+++ b/symbolics/functions/Acos.cpp
@@ -1,4 +1,5 @@
 #include "Acos.h"
+#include "Elementwise.h"
 #include "Cos.h"
 #include "Util.h"
 #include "Neg.h"
@@ -160,6 +161,7 @@ BasicPtr Acos::New( BasicPtr const& arg)
 inline BasicPtr Acos::der()
 /*****************************************************************************/
 { 
+  if (!is_Scalar()) return derElementwise<Acos>(getArg(),NULL);
   // der(acos(x)) = -der(x)/sqrt(1-x^2)
   return Neg::New(Util::div(getArg()->der(),Util::sqrt(Add::New(Int::getOne(),Neg::New(Pow::New(getArg(),Int::New(2)))))));
 }
@@ -169,6 +171,7 @@ inline BasicPtr Acos::der()
 inline BasicPtr Acos::der(BasicPtr const& symbol)
 /*****************************************************************************/
 { 
+  if (!is_Scalar()) return derElementwise<Acos>(getArg(),&symbol);
   // der(acos(x)) = -der(x)/sqrt(1-x^2)
   return Neg::New(Util::div(getArg()->der(symbol),Util::sqrt(Add::New(Int::getOne(),Neg::New(Pow::New(getArg(),Int::New(2)))))));
 }
diff --git a/symbolics/functions/Asin.cpp b/symbolics/functions/Asin.cpp
index 21e28e7..c7fbcf9 100644
--- a/symbolics/functions/Asin.cpp
+++ b/symbolics/functions/Asin.cpp
@@ -1,4 +1,5 @@
 #include "Asin.h"
+#include "Elementwise.h"
 #include "Sin.h"
 #include "Pow.h"
 #include "Util.h"
@@ -160,6 +161,7 @@ BasicPtr Asin::New( BasicPtr const& arg)
 inline BasicPtr Asin::der()
 /*****************************************************************************/
 { 
+  if (!is_Scalar()) return derElementwise<Asin>(getArg(),NULL);
   // der(asin(x)) = der(x)/sqrt(1-x^2)
   return Util::div(getArg()->der(),Util::sqrt(Add::New(Int::getOne(),Neg::New(Pow::New(getArg(),Int::New(2))))));
 }
@@ -169,6 +171,7 @@ inline BasicPtr Asin::der()
 inline BasicPtr Asin::der(BasicPtr const& symbol)
 /*****************************************************************************/
 { 
+  if (!is_Scalar()) return derElementwise<Asin>(getArg(),&symbol);
   // der(asin(x)) = der(x)/sqrt(1-x^2)
   return Util::div(getArg()->der(symbol),Util::sqrt(Add::New(Int::getOne(),Neg::New(Pow::New(getArg(),Int::New(2))))));
 }
diff --git a/symbolics/functions/Atan.cpp b/symbolics/functions/Atan.cpp
index f9d5873..f400d34 100644
--- a/symbolics/functions/Atan.cpp
+++ b/symbolics/functions/Atan.cpp
@@ -1,4 +1,5 @@
 #include "Atan.h"
+#include "Elementwise.h"
 #include "Tan.h"
 #include "Pow.h"
 #include "Add.h"
@@ -156,6 +157,7 @@ BasicPtr Atan::New( BasicPtr const& arg)
 inline BasicPtr Atan::der()
 /*****************************************************************************/
 { 
+  if (!is_Scalar()) return derElementwise<Atan>(getArg(),NULL);
   // der(atan(x)) = der(x)/(1+x^2)
     return Util::div(getArg()->der(),Add::New(Int::getOne(),Pow::New(getArg(),BasicPtr(new Int(2))))); 
 }
@@ -165,6 +167,7 @@ inline BasicPtr Atan::der()
 inline BasicPtr Atan::der(BasicPtr const& symbol)
 /*****************************************************************************/
 { 
+  if (!is_Scalar()) return derElementwise<Atan>(getArg(),&symbol);
   // der(atan(x)) = der(x)/(1+x^2)
     return Util::div(getArg()->der(symbol),Add::New(Int::getOne(),Pow::New(getArg(),BasicPtr(new Int(2))))); 
 }
diff --git a/symbolics/functions/Cos.cpp b/symbolics/functions/Cos.cpp
index 9757888..75e1ed4 100644
--- a/symbolics/functions/Cos.cpp
+++ b/symbolics/functions/Cos.cpp
@@ -1,5 +1,6 @@
 #include <stdarg.h>
 #include "Cos.h"
+#include "Elementwise.h"
 #include "Sin.h"
 #include "Acos.h"
 #include "Neg.h"
@@ -172,6 +173,7 @@ BasicPtr Cos::New( BasicPtr const& arg)
 /*****************************************************************************/
 inline BasicPtr Cos::der()
 { 
+  if (!is_Scalar()) return derElementwise<Cos>(getArg(),NULL);
   // der(cos(x)) = -der(x)*sin(x)
     return Neg::New(Mul::New(getArg()->der(),Sin::New(getArg()))); 
 }
@@ -180,6 +182,7 @@ inline BasicPtr Cos::der()
 /*****************************************************************************/
 inline BasicPtr Cos::der(BasicPtr const& symbol)
 { 
+  if (!is_Scalar()) return derElementwise<Cos>(getArg(),&symbol);
   // der(cos(x)) = -der(x)*sin(x)
     return Neg::New(Mul::New(getArg()->der(symbol),Sin::New(getArg()))); 
 }
diff --git a/symbolics/functions/Sign.cpp b/symbolics/functions/Sign.cpp
index 3bfbe65..d8dceaf 100644
--- a/symbolics/functions/Sign.cpp
+++ b/symbolics/functions/Sign.cpp
@@ -149,7 +149,8 @@ BasicPtr Sign::New( BasicPtr const& arg)
 inline BasicPtr Sign::der()
 /*****************************************************************************/
 {
-  return BasicPtr(new Der(BasicPtr(this)));
+  // constant but for the jump at zero
+  return Zero::getZero(getShape());
 }
 /*****************************************************************************/
 
@@ -157,6 +158,7 @@ inline BasicPtr Sign::der()
 inline BasicPtr Sign::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
-  return New(getArg()->der(symbol));
+  // constant but for the jump at zero
+  return Zero::getZero(getShape());
 }
 /*****************************************************************************/
\ No newline at end of file
diff --git a/symbolics/functions/Sin.cpp b/symbolics/functions/Sin.cpp
index 805e7d4..8ba3243 100644
--- a/symbolics/functions/Sin.cpp
+++ b/symbolics/functions/Sin.cpp
@@ -1,5 +1,6 @@
 #include <stdarg.h>
 #include "Sin.h"
+#include "Elementwise.h"
 #include "Asin.h"
 #include "Cos.h"
 #include "Neg.h"
@@ -156,6 +157,7 @@ BasicPtr Sin::New( BasicPtr const& arg)
 inline BasicPtr Sin::der()
 /*****************************************************************************/
 { 
+  if (!is_Scalar()) return derElementwise<Sin>(getArg(),NULL);
   // der(sin(x)) = der(x)*cos(x); 
   return Mul::New(getArg()->der(),Cos::New(getArg())); 
 }
@@ -165,6 +167,7 @@ inline BasicPtr Sin::der()
 inline BasicPtr Sin::der(BasicPtr const& symbol)
 /*****************************************************************************/
 { 
+  if (!is_Scalar()) return derElementwise<Sin>(getArg(),&symbol);
   // der(sin(x)) = der(x)*cos(x); 
   return Mul::New(getArg()->der(symbol),Cos::New(getArg())); 
 }
diff --git a/symbolics/functions/Tan.cpp b/symbolics/functions/Tan.cpp
index 7c5e461..64a6a3c 100644
--- a/symbolics/functions/Tan.cpp
+++ b/symbolics/functions/Tan.cpp
@@ -1,5 +1,6 @@
 #include <stdarg.h>
 #include "Tan.h"
+#include "Elementwise.h"
 #include "Atan.h"
 #include "Neg.h"
 #include "Util.h"
@@ -158,6 +159,7 @@ BasicPtr Tan::New( BasicPtr const& arg)
 BasicPtr Tan::der()
 /*****************************************************************************/
 {
+  if (!is_Scalar()) return derElementwise<Tan>(getArg(),NULL);
   // der(tan(x)) = der(x)/(cos(x)^2)
   return Util::div(getArg()->der(),Pow::New(Cos::New(getArg()),Int::New(2)));
 }
@@ -167,6 +169,7 @@ BasicPtr Tan::der()
 BasicPtr Tan::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
+  if (!is_Scalar()) return derElementwise<Tan>(getArg(),&symbol);
   // der(tan(x)) = der(x)/(cos(x)^2)
   return Util::div(getArg()->der(symbol),Pow::New(Cos::New(getArg()),Int::New(2)));
 }
diff --git a/symbolics/functions/include/Elementwise.h b/symbolics/functions/include/Elementwise.h
new file mode 100644
index 0000000..b77c576
--- /dev/null
+++ b/symbolics/functions/include/Elementwise.h
@@ -0,0 +1,24 @@
+#ifndef __ELEMENTWISE_H_
+#define __ELEMENTWISE_H_
+
+#include "Element.h"
+#include "Matrix.h"
+
+namespace Symbolics
+{
+    // Derivative of a function which works on each element of a vector or a matrix
+    template<class F> BasicPtr derElementwise( BasicPtr const& arg, BasicPtr const* symbol )
+    {
+        Matrix *mat = new Matrix(arg->getShape());
+        BasicPtr res(mat);
+        for (size_t i=0; i<arg->getShape().getDimension(1); ++i)
+            for (size_t j=0; j<arg->getShape().getDimension(2); ++j)
+            {
+                BasicPtr f = F::New(Element::New(arg,i,j));
+                mat->set(i,j, symbol ? f->der(*symbol) : f->der());
+            }
+        return res;
+    }
+};
+
+#endif // __ELEMENTWISE_H_
-- 
2.43.0


From 6eab48f3db41132db5f10016e8cf22952a024e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 009/126] fix: Element, Scalar, Skew and Solve refuse
 ill-shaped arguments

---
 symbolics/functions/Element.cpp |  5 +++++
 symbolics/functions/Scalar.cpp  |  5 ++++-
 symbolics/functions/Skew.cpp    |  2 ++
 symbolics/functions/Solve.cpp   | 19 ++++++++++++-------
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/symbolics/functions/Element.cpp b/symbolics/functions/Element.cpp
index 0b69b59..d9ab552 100644
--- a/symbolics/functions/Element.cpp
+++ b/symbolics/functions/Element.cpp
@@ -204,6 +204,11 @@ BasicPtr Element::New( BasicPtr const& arg, size_t zeroBasedRow, size_t zeroBase
     else
       throw InternalError("Cannot get Element[" + str(zeroBasedRow) + "," + str(zeroBasedCol) + "] from expression " + arg->toString());
   }
+  // the shortcuts below must not be taken with an index which does not exist
+  if (zeroBasedRow >= arg->getShape().getDimension(1))
+    throw IndexError("Element: Row outside range!");
+  if (zeroBasedCol >= arg->getShape().getDimension(2))
+    throw IndexError("Element: Column outside range!");
   // simplify matrices
   switch(arg->getType())
   {
diff --git a/symbolics/functions/Scalar.cpp b/symbolics/functions/Scalar.cpp
index 9fc8709..b75b260 100644
--- a/symbolics/functions/Scalar.cpp
+++ b/symbolics/functions/Scalar.cpp
@@ -102,6 +102,9 @@ BasicPtr Scalar::simplify()
 BasicPtr Scalar::New(BasicPtr const& arg)
 /*****************************************************************************/
 {
+    // checks the argument
+    BasicPtr scalar(new Scalar(arg));
+
     // if constant move sign into value
     switch (arg->getType())
     {
@@ -116,6 +119,6 @@ BasicPtr Scalar::New(BasicPtr const& arg)
             return Neg::New(New(neg->getArg()));
         }
     }
-    return BasicPtr(new Scalar(arg));
+    return scalar;
 }
 /*****************************************************************************/
\ No newline at end of file
diff --git a/symbolics/functions/Skew.cpp b/symbolics/functions/Skew.cpp
index 2f1fef1..876dc91 100644
--- a/symbolics/functions/Skew.cpp
+++ b/symbolics/functions/Skew.cpp
@@ -110,6 +110,8 @@ BasicPtr Skew::New( BasicPtr const& arg)
     {
     case Type_Matrix:
         {
+            // checks the argument
+            BasicPtr skew(new Skew(arg));
             const Matrix *v = Util::getAsConstPtr<Matrix>(arg);
             Matrix *m = new Matrix( Shape(3,3) );
             BasicPtr &Zero = Zero::getZero();
diff --git a/symbolics/functions/Solve.cpp b/symbolics/functions/Solve.cpp
index 0e4c21b..20a1b7d 100644
--- a/symbolics/functions/Solve.cpp
+++ b/symbolics/functions/Solve.cpp
@@ -56,7 +56,10 @@ void Solve::validate()
         throw ShapeError(msg.c_str());
     }
     // Shape berechnen
-    m_shape = Shape(s1.getDimension(2));
+    if (getArg1()->is_Scalar() && getArg2()->is_Scalar())
+        m_shape = Shape();
+    else
+        m_shape = Shape(s1.getDimension(2));
 }
 /*****************************************************************************/
 
@@ -107,6 +110,13 @@ BasicPtr Solve::simplify()
 BasicPtr Solve::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    // Scalar
+    if ((arg1->is_Scalar()) && (arg2->is_Scalar()))
+    {
+        return Util::div(arg2,arg1);
+    }
+    // checks the arguments
+    BasicPtr solve(new Solve(arg1,arg2));
     // b is zero
     if (Util::is_Zero(arg2))
     {
@@ -117,12 +127,7 @@ BasicPtr Solve::New( BasicPtr const& arg1, BasicPtr const& arg2)
     {
         return arg2;
     }
-    // Scalar
-    if ((arg1->is_Scalar()) && (arg2->is_Scalar()))
-    {
-        return Util::div(arg2,arg1);
-    }
-    return BasicPtr(new Solve(arg1,arg2));
+    return solve;
 }
 /*****************************************************************************/
 
-- 
2.43.0


From afc992a2f326434125acb5291955857c5a4ad875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 010/126] fix: derivative and shape of Inverse

---
 symbolics/functions/Inverse.cpp       | 37 +++++++++++++++++++++++----
 symbolics/functions/include/Inverse.h |  4 +--
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 665f9c0..eacdb83 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -1,5 +1,7 @@
 #include "Inverse.h"
 #include "Matrix.h"
+#include "Mul.h"
+#include "Pow.h"
 #include "Util.h"
 #include "Neg.h"
 #include "Operators.h"
@@ -61,14 +63,15 @@ BasicPtr Inverse::simplify()
     
     // Ist es ein Skalar?
     if (getArg()->is_Scalar())
-        return getArg();
+        return Pow::New(getArg(),Int::getMinusOne());
 
     // simplify matrices
     switch(getArg()->getType())
     {
     case Type_Eye:
-    case Type_Zero:
         return getArg();
+    case Type_Zero:
+        throw InternalError("inv of a zero matrix does not exist!");
     case Type_Neg:
         {
             const Neg* neg = Util::getAsConstPtr<Neg>(getArg());
@@ -92,13 +95,17 @@ BasicPtr Inverse::New( BasicPtr const& arg )
 {
     // Ist es ein Skalar?
     if (arg->is_Scalar())
-        return arg;
+        return Pow::New(arg,Int::getMinusOne());
+
+    // Shape pruefen
+    if (arg->getShape().getDimension(1) != arg->getShape().getDimension(2))
+        throw ShapeError("inv is only defined for square matrices!");
 
     // simplify matrices
     switch(arg->getType())
     {
     case Type_Zero:
-		return Zero::getZero( arg->getShape());
+        throw InternalError("inv of a zero matrix does not exist!");
 	  case Type_Eye:
         return arg;
     case Type_Neg:
@@ -116,4 +123,24 @@ BasicPtr Inverse::New( BasicPtr const& arg )
     }
     return BasicPtr( new Inverse(arg) );
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der()
+/*****************************************************************************/
+{
+    // der(inv(A)) = -inv(A)*der(A)*inv(A)
+    BasicPtr inv(this);
+    return Neg::New(Mul::New(inv,Mul::New(getArg()->der(),inv)));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+    // der(inv(A)) = -inv(A)*der(A)*inv(A)
+    BasicPtr inv(this);
+    return Neg::New(Mul::New(inv,Mul::New(getArg()->der(symbol),inv)));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Inverse.h b/symbolics/functions/include/Inverse.h
index 79da607..5310ad6 100644
--- a/symbolics/functions/include/Inverse.h
+++ b/symbolics/functions/include/Inverse.h
@@ -26,8 +26,8 @@ namespace Symbolics
 		    static BasicPtr New( BasicPtr const& arg );
 
         // derivative
-        inline BasicPtr der() { return Der::New(BasicPtr(this)); };
-        inline BasicPtr der(BasicPtr const& symbol) { return Der::New(BasicPtr(this)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
 
     };
 
-- 
2.43.0


From 32adac3d966dff17f6734b5af9c04168cca5d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 011/126] fix: shape and derivative of Outer

---
 symbolics/functions/Outer.cpp       | 15 ++++++++++-----
 symbolics/functions/include/Outer.h |  5 +++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 6cba047..a0c40e9 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -58,6 +58,8 @@ void Outer::validate()
         const std::string msg = "First and second argument must have same length (" + str(n) + "!=" + str(n) + ")!";
         throw ShapeError( msg.c_str() );
 	}
+    if ((s.getDimension(2) != 1) || (getArg2()->getShape().getDimension(2) != 1))
+        throw ShapeError("Arguments of Outer must be column vectors!");
     // Shape auf nxn festsetzen
     m_shape = Shape(n,n);
 }
@@ -69,9 +71,9 @@ std::string Outer::toString() const
 /*****************************************************************************/
 {
 #ifdef _DEBUG
-    return "Outer(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "Outer(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #else
-    return "Outer(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "Outer(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #endif
 }
 /*****************************************************************************/
@@ -108,9 +110,12 @@ BasicPtr Outer::simplify()
 BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
+    // checks the arguments
+    BasicPtr outer(new Outer(arg1, arg2));
+
     // if zero, return zero
-    if (Util::is_Zero(arg1)) return Zero::getZero();
-    if (Util::is_Zero(arg2)) return Zero::getZero();
+    if (Util::is_Zero(arg1) || Util::is_Zero(arg2))
+        return Zero::getZero(outer->getShape());
 
 	// simplify matrices
 	if ( (arg1->getType() == Type_Matrix) && (arg2->getType() == Type_Matrix) )
@@ -121,6 +126,6 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 		return BasicPtr(mat3);
 	}
 
-    return BasicPtr(new Outer(arg1, arg2));
+    return outer;
 }
 /*****************************************************************************/
\ No newline at end of file
diff --git a/symbolics/functions/include/Outer.h b/symbolics/functions/include/Outer.h
index 28af848..791c603 100644
--- a/symbolics/functions/include/Outer.h
+++ b/symbolics/functions/include/Outer.h
@@ -2,6 +2,7 @@
 #define __OUTER_H_
 
 #include "BinaryOp.h"
+#include "Add.h"
 
 namespace Symbolics
 {
@@ -25,8 +26,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(), getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol), getArg2()->der(symbol)); };
+        inline BasicPtr der() { return Add::New(New(getArg1()->der(), getArg2()), New(getArg1(), getArg2()->der())); };
+        inline BasicPtr der(BasicPtr const& symbol) { return Add::New(New(getArg1()->der(symbol), getArg2()), New(getArg1(), getArg2()->der(symbol))); };
 
 	protected:
 		void validate();
-- 
2.43.0


From 29bd7f005f4b0ee69398e0a2e818e1796eead711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 012/126] fix: derivative, printing and argument check of Atan2

---
 symbolics/functions/Atan2.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index 64abb8b..5ebc0a9 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -60,9 +60,9 @@ std::string Atan2::toString() const
 /*****************************************************************************/
 {
 #ifdef _DEBUG
-    return "atan2(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "atan2(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #else
-    return "atan2(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "atan2(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #endif
 }
 /*****************************************************************************/
@@ -161,6 +161,11 @@ BasicPtr Atan2::simplify()
 BasicPtr Atan2::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    // Argumente muessen skalar sein!
+    if (!arg1->is_Scalar())
+      throw ShapeError("Internal Error: Atan2 - First argument must be scalar!");
+    if (!arg2->is_Scalar())
+      throw ShapeError("Internal Error: Atan2 - Second argument must be scalar!");
     // fuer Konstanten einfach die Operation ausfuehren
     // Was haben wir denn als Argument?
     // Zero, Zero
@@ -243,9 +248,10 @@ BasicPtr Atan2::New( BasicPtr const& arg1, BasicPtr const& arg2)
 BasicPtr Atan2::der()
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+  // der(atan2(y,x)) = (x*der(y)-y*der(x)) / (x^2+y^2)
+  BasicPtr num = Add::New(Mul::New(getArg2(),getArg1()->der()),Neg::New(Mul::New(getArg1(),getArg2()->der())));
+  BasicPtr den = Add::New(Pow::New(getArg2(),Int::New(2)),Pow::New(getArg1(),Int::New(2)));
+  return Mul::New(num,Pow::New(den,Int::getMinusOne())); 
 }
 /*****************************************************************************/
 
@@ -253,8 +259,9 @@ BasicPtr Atan2::der()
 BasicPtr Atan2::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(symbol),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+  // der(atan2(y,x)) = (x*der(y)-y*der(x)) / (x^2+y^2)
+  BasicPtr num = Add::New(Mul::New(getArg2(),getArg1()->der(symbol)),Neg::New(Mul::New(getArg1(),getArg2()->der(symbol))));
+  BasicPtr den = Add::New(Pow::New(getArg2(),Int::New(2)),Pow::New(getArg1(),Int::New(2)));
+  return Mul::New(num,Pow::New(den,Int::getMinusOne())); 
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 9c32b7b4c5ae6100054de944154e7a0864c420e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 013/126] fix: simplification of a transposed Zero

---
 symbolics/functions/Transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Transpose.cpp b/symbolics/functions/Transpose.cpp
index f942b41..268bff5 100644
--- a/symbolics/functions/Transpose.cpp
+++ b/symbolics/functions/Transpose.cpp
@@ -63,8 +63,9 @@ BasicPtr Transpose::simplify()
     // simplify matrices
     switch(getArg()->getType())
     {
-	  case Type_Eye:
     case Type_Zero:
+        return Zero::getZero( m_shape );
+	  case Type_Eye:
     case Type_Int:
     case Type_Real:
         return getArg();
-- 
2.43.0


From ddbedf6ffadcfcea5e76bb6a145f486993fac81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 014/126] fix: substitution in Sign, Inverse, Outer and
 Jacobian

---
 symbolics/Factory.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symbolics/Factory.cpp b/symbolics/Factory.cpp
index dcf17b8..7ba9112 100644
--- a/symbolics/Factory.cpp
+++ b/symbolics/Factory.cpp
@@ -54,6 +54,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg, Shape const& shape)
         return BasicPtr( new Scalar(arg) );
     case Type_Skew:
         return Skew::New(arg);
+    case Type_Sign:
+        return BasicPtr( new Sign(arg) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(arg) );
     case Type_Transpose:
         return BasicPtr( new Transpose(arg) );
     case Type_Unknown:
@@ -86,6 +90,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg1, BasicPtr &arg2, Sh
         return BasicPtr( new Pow(arg1,arg2) );
     case Type_Solve:
         return BasicPtr( new Solve(arg1,arg2) );
+    case Type_Outer:
+        return BasicPtr( new Outer(arg1,arg2) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(arg1,arg2) );
     case Type_Atan2:
         return BasicPtr( new Atan2(arg1,arg2) );
     case Type_Less:
@@ -148,6 +156,14 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtrVec &args, Shape const& sh
         return BasicPtr( new Scalar(args) );
     case Type_Skew:
         return BasicPtr( new Skew(args) );
+    case Type_Sign:
+        return BasicPtr( new Sign(args) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(args) );
+    case Type_Outer:
+        return BasicPtr( new Outer(args) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(args) );
     case Type_Transpose:
         return BasicPtr( new Transpose(args) );
     case Type_Less:
-- 
2.43.0


From 0b584040247c5da1e7cc735b96f9a666e8f59acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 015/126] fix: Jacobian::simplify has the layout of
 Jacobian::New and accepts symbol vectors

---
 symbolics/functions/Jacobian.cpp | 47 ++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/symbolics/functions/Jacobian.cpp b/symbolics/functions/Jacobian.cpp
index b2c1c87..b3611f3 100644
--- a/symbolics/functions/Jacobian.cpp
+++ b/symbolics/functions/Jacobian.cpp
@@ -69,26 +69,31 @@ BasicPtr Jacobian::simplify()
   simplifyArgs();
 
   // 
-  if (getArg1()->is_Scalar())
+  if (getArg2()->getType() == Type_Matrix)
   {
-    BasicPtrVec vec;
-    size_t numelem = getArg2()->getShape().getNumEl();
-    vec.reserve(numelem);
-    for (size_t i=0;i<numelem;++i)
-      vec.push_back(getArg1()->der(getArg2()->getArg(i))->simplify());
-    return BasicPtr(new Matrix(vec,Shape(numelem)));
-  }
-  else if (Util::is_Const(getArg1()))
-  {
-    return Zero::getZero(m_shape);
-  }
-  else if (getArg1()->getType() == Type_Matrix)
-  {
-    Matrix *mat = new Matrix(m_shape);
-    for (size_t i=0;i<getArg2()->getShape().getNumEl();++i)
-      for (size_t j=0;j<getArg1()->getShape().getNumEl();++j)
-        mat->set(i,j,getArg1()->getArg(j)->der(getArg2()->getArg(i))->simplify());
-    return BasicPtr(mat);
+    if (getArg1()->is_Scalar())
+    {
+      BasicPtrVec vec;
+      size_t numelem = getArg2()->getShape().getNumEl();
+      vec.reserve(numelem);
+      for (size_t i=0;i<numelem;++i)
+        vec.push_back(getArg1()->der(getArg2()->getArg(i))->simplify());
+      return BasicPtr(new Matrix(vec,Shape(1,1,numelem)));
+    }
+    else if (Util::is_Const(getArg1()))
+    {
+      return Zero::getZero(m_shape);
+    }
+    else if (getArg1()->getType() == Type_Matrix)
+    {
+      Matrix *mat = new Matrix(m_shape);
+      BasicPtr res(mat);
+      // i -> Symbole (=Spalten), j -> Expression (=Zeilen)
+      for (size_t i=0;i<getArg2()->getShape().getNumEl();++i)
+        for (size_t j=0;j<getArg1()->getShape().getNumEl();++j)
+          mat->set(j,i,getArg1()->getArg(j)->der(getArg2()->getArg(i))->simplify());
+      return res;
+    }
   }
   m_simplified = true;
   return BasicPtr(this);
@@ -108,7 +113,9 @@ BasicPtr Jacobian::New( BasicPtr const& exp, BasicPtr const& symbols)
 
   BasicPtr exp1 = exp->simplify();
 
-  if (exp1->is_Scalar()) // Wir leiten einen Skalar ab => Vektor mit Shape(1,n)
+  if (symbols->getType() != Type_Matrix) // Symbole sind nicht einzeln zugaenglich
+    return BasicPtr( new Jacobian(exp1,symbols));
+  else if (exp1->is_Scalar()) // Wir leiten einen Skalar ab => Vektor mit Shape(1,n)
   {
     BasicPtrVec vec;
     size_t numelem = symbols->getShape().getNumEl();
-- 
2.43.0


From 41fc4d871c629198a65b7632afedcf1e04a30a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 016/126] fix: Python int and shape conversion is range
 checked, Symbol name must be a str

---
 symbolics/wrapper/CNumber.cpp       |  2 +-
 symbolics/wrapper/CSymbol.cpp       |  1 +
 symbolics/wrapper/convert.cpp       | 51 +++++++++++++++++++++++++----
 symbolics/wrapper/include/convert.h |  1 +
 4 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/symbolics/wrapper/CNumber.cpp b/symbolics/wrapper/CNumber.cpp
index 4597df3..ae5392b 100644
--- a/symbolics/wrapper/CNumber.cpp
+++ b/symbolics/wrapper/CNumber.cpp
@@ -96,7 +96,7 @@ static int CNumber_init(CNumberObject *self, PyObject *args, PyObject *kwds)
 
 		// Ist es ein Int?
 		if (PyLong_Check(item))
-			self->m_basic = Int::New( PyLong_AsLong(item) );
+			self->m_basic = fromPyLong( item );
 		else if (PyFloat_Check(item))
 			self->m_basic = BasicPtr( new Real( PyFloat_AsDouble(item) ) );
 		else
diff --git a/symbolics/wrapper/CSymbol.cpp b/symbolics/wrapper/CSymbol.cpp
index 0988f66..a5b320a 100644
--- a/symbolics/wrapper/CSymbol.cpp
+++ b/symbolics/wrapper/CSymbol.cpp
@@ -97,6 +97,7 @@ static int CSymbol_init(CSymbolObject *self, PyObject *args, PyObject *kwds)
         }
         nameObj = PyTuple_GetItem(args, 0);
         const char *name = PyUnicode_AsUTF8(nameObj);
+        if (name == NULL) return -1;
         if (nArgs > 1)
             shapeObj = PyTuple_GetItem(args, 1);
 
diff --git a/symbolics/wrapper/convert.cpp b/symbolics/wrapper/convert.cpp
index 57053d2..19cdd1e 100644
--- a/symbolics/wrapper/convert.cpp
+++ b/symbolics/wrapper/convert.cpp
@@ -1,6 +1,7 @@
 #include "convert.h"
 #define _USE_MATH_DEFINES
 #include <math.h>
+#include <limits.h>
 #include <iostream>
 #include "CBasic.h"
 #include "str.h"
@@ -9,6 +10,26 @@
 
 using namespace Symbolics;
 
+/*****************************************************************************/
+// Einen Python Int wandeln, Real falls er nicht in einen Int passt
+/*****************************************************************************/
+BasicPtr fromPyLong( PyObject *o )
+/*****************************************************************************/
+{
+    int overflow = 0;
+    const long long val = PyLong_AsLongLongAndOverflow(o, &overflow);
+    if (overflow == 0)
+        return Int::New(val);
+    const double dbl = PyLong_AsDouble(o);
+    if (PyErr_Occurred())
+    {
+        PyErr_Clear();
+        throw InternalError("Integer is too large!");
+    }
+    return BasicPtr( new Real(dbl) );
+}
+/*****************************************************************************/
+
 #pragma region gatherArgs
 /*****************************************************************************/
 // Elemente aus einem Tuple zusammensuchen
@@ -86,9 +107,8 @@ BasicPtr toBasic( PyObject *o, Graph::Graph* &g)
     if (typeName == "Integer")
     {
         // Konstante zurueckgeben
-         int val = static_cast<int>(PyLong_AsLong(o));
         // Konstante zurueckgeben
-        return BasicPtr( new Int(val) );
+        return fromPyLong(o);
     }
     // One
     if (typeName == "One")
@@ -289,6 +309,23 @@ std::vector< BasicPtr> toBasicVec( PyObject *o, Graph::Graph* &g )
 
 
 #pragma region Shape
+/*****************************************************************************/
+// Eine Dimension aus einem Int lesen
+/*****************************************************************************/
+static size_t toDimension( PyObject *dim )
+/*****************************************************************************/
+{
+    const Py_ssize_t n = PyLong_AsSsize_t( dim );
+    if ((n < 0) || (n > INT_MAX))
+    {
+        PyErr_Clear();
+        throw ShapeError("Dimension out of range!");
+    }
+    return n;
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 // Ein Tupel in einen Shape wandeln
 /*****************************************************************************/
@@ -301,7 +338,7 @@ Shape toShape( PyObject *tuple )
 	// Auf Int pruefen
 	if (PyLong_Check(tuple))
 	{
-		const size_t n = PyLong_AsSsize_t(tuple);
+		const size_t n = toDimension(tuple);
 		return Shape(n,n);
 	}
 
@@ -323,7 +360,7 @@ Shape toShape( PyObject *tuple )
             if (dim1 == NULL) throw InternalError("Internal Error: toShape(1)!");
             // Shape erstellen
             if (!PyLong_Check(dim1)) throw InternalError("Internal Error: toShape - dim1 must be an integer!");
-            return Shape( PyLong_AsSsize_t( dim1 ) );
+            return Shape( toDimension( dim1 ) );
         }
     case 2:
         {
@@ -336,7 +373,7 @@ Shape toShape( PyObject *tuple )
             // Shape erstellen
             if (!PyLong_Check(dim1)) throw InternalError("Internal Error: toShape - dim1 must be an integer!");
             if (!PyLong_Check(dim2)) throw InternalError("Internal Error: toShape - dim2 must be an integer!");
-            return Shape( PyLong_AsSsize_t( dim1 ), PyLong_AsSsize_t( dim2 ) );
+            return Shape( toDimension( dim1 ), toDimension( dim2 ) );
         }
 	case 3:
         {
@@ -353,7 +390,7 @@ Shape toShape( PyObject *tuple )
             if (!PyLong_Check(ndim)) throw InternalError("Internal Error: toShape - ndim must be an integer!");
             if (!PyLong_Check(dim1)) throw InternalError("Internal Error: toShape - dim1 must be an integer!");
             if (!PyLong_Check(dim2)) throw InternalError("Internal Error: toShape - dim2 must be an integer!");
-            return Shape( PyLong_AsSsize_t( ndim ), PyLong_AsSsize_t( dim1 ), PyLong_AsSsize_t( dim2 ) );
+            return Shape( toDimension( ndim ), toDimension( dim1 ), toDimension( dim2 ) );
         }
 
     default:
@@ -441,7 +478,7 @@ BasicPtr getBasic( PyObject *o )
     }
     // Type == int
     if (PyLong_Check(o))
-        return BasicPtr( new Int( PyLong_AsLong(o) ) );
+        return fromPyLong(o);
     // Type == float
     if (PyFloat_Check(o))
         return BasicPtr( new Real( PyFloat_AsDouble(o) ) );
diff --git a/symbolics/wrapper/include/convert.h b/symbolics/wrapper/include/convert.h
index 6820761..fbbcc04 100644
--- a/symbolics/wrapper/include/convert.h
+++ b/symbolics/wrapper/include/convert.h
@@ -26,5 +26,6 @@ template < class T > BasicPtr toBinary( PyObject *o, Graph::Graph* &g );
 
 // PyObject in BasicPtr
 BasicPtr getBasic( PyObject *o );
+BasicPtr fromPyLong( PyObject *o );
 
 #endif // __TOBASIC_H_
\ No newline at end of file
-- 
2.43.0


From c4b6af43dff7663b9ce6a39ff70adca01c7b9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 017/126] fix: a simplified Python object keeps its type valid

---
 symbolics/wrapper/PyFactory.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/symbolics/wrapper/PyFactory.cpp b/symbolics/wrapper/PyFactory.cpp
index 0a8de96..50ce9b2 100644
--- a/symbolics/wrapper/PyFactory.cpp
+++ b/symbolics/wrapper/PyFactory.cpp
@@ -66,12 +66,6 @@ PyTypeObject* PyFactory::ObjectType( BasicPtr &b )
   case Type_Symbol:
 		return &CSymbolObjectType;
 		break;
-  case Type_Int:
-    return &PyLong_Type;
-  	break;
-  case Type_Real:
-    return &PyFloat_Type;
-  	break;
 	case Type_Matrix:
 		return &CMatrixObjectType;
 		break;
-- 
2.43.0


From 55428dce505cd614811f4dee42e867f2093bf3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 018/126] fix: writeCode refuses an unknown target

---
 symbolics/wrapper/CGraph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CGraph.cpp b/symbolics/wrapper/CGraph.cpp
index 3ded973..a59d5d4 100644
--- a/symbolics/wrapper/CGraph.cpp
+++ b/symbolics/wrapper/CGraph.cpp
@@ -549,7 +549,7 @@ static PyObject* CGraph_writeOutput(CGraphObject *self, PyObject *args, PyObject
 		char *path = NULL;
 
 		double t;
-		Writer *writer;
+		Writer *writer = NULL;
 
 		// Argumente parsen
 		if (!PyArg_ParseTuple(args, "sss", &typeString, &name, &path))
@@ -580,6 +580,9 @@ static PyObject* CGraph_writeOutput(CGraphObject *self, PyObject *args, PyObject
 		if(!strcmp(typeString, "fmu"))
 			writer = new FMUWriter(keywords);
 
+		if (writer == NULL)
+			throw InternalError(std::string("Unknown target '") + typeString + "'!");
+
 		// Code schreiben
 		t = writer->generateTarget(name, path, *(self->m_graph), true);
 		return PyFloat_FromDouble(t);
-- 
2.43.0


From 1a9ea426945865eda116e3ef82f14ee0af6ae2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 019/126] fix: Python indices, slices and exponents are range
 checked

---
 symbolics/wrapper/CBasic.cpp | 81 +++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 60b1f56..2ae83b2 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -3,6 +3,7 @@
 #include "SymbolicsError.h"
 #include "convert.h"
 #include "PyFactory.h"
+#include <limits.h>
 
 using namespace Symbolics::Python;
 
@@ -394,7 +395,10 @@ static PyObject* CBasic_pow(PyObject *self, PyObject *other, PyObject *modulo)
         if (PyFloat_Check(other))
             exponent = PyFloat_AsDouble(other);
         else if (PyLong_Check(other))
-            exponent = PyLong_AsLong(other);
+        {
+            exponent = PyLong_AsDouble(other);
+            if (PyErr_Occurred()) return NULL;
+        }
         else
         {
             PyErr_SetString(SymbolicsError, "Exponent must be a number!");
@@ -481,6 +485,42 @@ static Py_ssize_t CBasic_len(CBasicObject *self)
 }
 /*****************************************************************************/
 
+// Ganzzahligen Index auspacken
+/*****************************************************************************/
+static int unpackInt( PyObject *index )
+/*****************************************************************************/
+{
+	const Py_ssize_t i = PyLong_AsSsize_t(index);
+	if ((i < 0) || (i > INT_MAX))
+	{
+		PyErr_Clear();
+		throw ShapeError("Index out of bounds!");
+	}
+	return static_cast<int>(i);
+}
+/*****************************************************************************/
+
+// Slice auspacken
+/*****************************************************************************/
+static void unpackSlice( PyObject *slice, size_t length, std::vector<int> &v )
+/*****************************************************************************/
+{
+	Py_ssize_t start, stop, step;
+	if (PySlice_Unpack(slice, &start, &stop, &step) < 0)
+	{
+		PyErr_Clear();
+		throw ShapeError("Invalid slice!");
+	}
+	if (step < 1)
+		throw ShapeError("Slice step must be positive!");
+	PySlice_AdjustIndices(length, &start, &stop, step);
+	if (start > stop)
+		throw ShapeError("Slice seems strange start>stop?!");
+	for(Py_ssize_t i=start; i<stop; i+=step)
+		v.push_back(static_cast<int>(i));
+}
+/*****************************************************************************/
+
 // Get Index
 /*****************************************************************************/
 bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector<int> &n )
@@ -501,17 +541,9 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 
 	// Index = Int
 	if (PyLong_Check(index))
-		m.push_back(PyLong_AsSsize_t(index));
+		m.push_back(unpackInt(index));
 	else if (PySlice_Check(index))
-	{
-		// Slice "auspacken"
-		Py_ssize_t start, stop, step;
-		PySlice_GetIndices(index, s.getDimension(1)*s.getDimension(2), &start, &stop, &step);
-		if (start > stop)
-      throw ShapeError("Slice seems strange start>stop?!");
-		for(int i=(int)start; i<(int)stop; i+=(int)step)
-			m.push_back(i);
-	}
+		unpackSlice(index, s.getDimension(1)*s.getDimension(2), m);
 	else if (PyTuple_Check(index))
 	{
 		// Index = Tuple
@@ -529,20 +561,9 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 		// Ersten Int holen
 		PyObject *row = PyTuple_GetItem(index, 0);
 		if (PyLong_Check(row))
-			m.push_back(PyLong_AsSsize_t(row));
+			m.push_back(unpackInt(row));
 		else if (PySlice_Check(row))
-		{
-			// Slice "auspacken"
-			Py_ssize_t start, stop, step;
-			if (len == 1)
-				PySlice_GetIndices(row, s.getDimension(1)*s.getDimension(2), &start, &stop, &step);
-			else
-				PySlice_GetIndices(row, s.getDimension(1), &start, &stop, &step);
-			if (start > stop) 
-        throw ShapeError("Slice seems strange start>stop?!");
-			for(int i=(int)start; i<(int)stop; i+=(int)step)
-				m.push_back(i);
-		}
+			unpackSlice(row, (len == 1) ? s.getDimension(1)*s.getDimension(2) : s.getDimension(1), m);
 		else
 		{
 			PyErr_SetString(SymbolicsError, "First element in index tuple is no int!");
@@ -555,17 +576,9 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 			// Zweiten Int holen
 			PyObject *col = PyTuple_GetItem(index, 1);
 			if (PyLong_Check(col))
-				n.push_back(PyLong_AsSsize_t(col));
+				n.push_back(unpackInt(col));
 			else if (PySlice_Check(col))
-			{
-				// Slice "auspacken"
-				Py_ssize_t start, stop, step;
-				PySlice_GetIndices(col, s.getDimension(2), &start, &stop, &step);
-				if (start > stop) 
-          throw ShapeError("Slice seems strange start>stop?!");
-				for(int i=(int)start; i<(int)stop; i+=(int)step)
-					n.push_back(i);
-			}
+				unpackSlice(col, s.getDimension(2), n);
 			else	
 			{
 				PyErr_SetString(SymbolicsError, "Second element in index tuple is no int!");
-- 
2.43.0


From 5fc1de441c5cba276139eb6ed8838ec4bbae12bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 020/126] fix: NaryOp::getArg bound

---
 symbolics/include/NaryOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/include/NaryOp.h b/symbolics/include/NaryOp.h
index 4b34f26..69f2347 100644
--- a/symbolics/include/NaryOp.h
+++ b/symbolics/include/NaryOp.h
@@ -30,7 +30,7 @@ namespace Symbolics
 
         // args
         inline size_t getArgsSize() const { return m_args.size(); };
-        inline BasicPtr const& getArg(size_t i) const { if (i > m_args.size()) throw InternalError("Args Index out of bounce!"); return m_args[i].getArg(); }; 
+        inline BasicPtr const& getArg(size_t i) const { if (i >= m_args.size()) throw InternalError("Args Index out of bounce!"); return m_args[i].getArg(); }; 
 
     protected:
 
-- 
2.43.0


From 0157b74b9bdb6ab389dc4587b135192cec111535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 021/126] fix: integer arithmetic and integer detection do not
 overflow

---
 symbolics/Int.cpp             | 12 ++++++++++++
 symbolics/functions/Abs.cpp   |  4 ++--
 symbolics/functions/Add.cpp   |  2 +-
 symbolics/functions/Mul.cpp   |  2 +-
 symbolics/functions/Neg.cpp   |  4 ++--
 symbolics/functions/Pow.cpp   |  4 ++--
 symbolics/functions/Util.cpp  |  4 ++++
 symbolics/include/Int.h       |  2 ++
 symbolics/printer/Printer.cpp |  2 +-
 9 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index b7fe71d..e19fd74 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -4,6 +4,8 @@
 #include "Operators.h"
 #include "Matrix.h"
 
+#include <limits.h>
+
 using namespace Symbolics;
 
 /*****************************************************************************/
@@ -28,6 +30,16 @@ Int::~Int()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+BasicPtr Int::New( const long long i)
+/*****************************************************************************/
+{
+    if ((i < INT_MIN) || (i > INT_MAX))
+        return BasicPtr(new Real(static_cast<double>(i)));
+    return New(static_cast<int>(i));
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 BasicPtr Int::New( const int i)
 /*****************************************************************************/
diff --git a/symbolics/functions/Abs.cpp b/symbolics/functions/Abs.cpp
index 0c6f092..6c5382d 100644
--- a/symbolics/functions/Abs.cpp
+++ b/symbolics/functions/Abs.cpp
@@ -78,7 +78,7 @@ BasicPtr Abs::simplify()
             if ( i >= 0 )
                 return getArg();
             else
-                return BasicPtr( new Int(-i) );
+                return Int::New(-static_cast<long long>(i));
         }
     case Type_Real:
         {
@@ -139,7 +139,7 @@ BasicPtr Abs::New( BasicPtr const& arg)
             if ( i >= 0 )
                 return arg;
             else
-                return BasicPtr( new Int(-i) );
+                return Int::New(-static_cast<long long>(i));
         }
     case Type_Real:
         {
diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index f9d6e25..8b1b593 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -436,7 +436,7 @@ BasicPtr Add::New( BasicPtr const& lhs, BasicPtr const& rhs )
         if (rhs->getType() == Type_Int) 
         {
             const Int *crhs = Util::getAsConstPtr<Int>(rhs);
-            return Int::New(clhs->getValue()+crhs->getValue());
+            return Int::New(static_cast<long long>(clhs->getValue())+crhs->getValue());
         }
         else if (rhs->getType() == Type_Real) 
         {
diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 556750d..5d5f9b6 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -385,7 +385,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         if (rhs->getType() == Type_Int) 
         {
             const Int *crhs = Util::getAsConstPtr<Int>(rhs);
-            return Int::New(clhs->getValue()*crhs->getValue());
+            return Int::New(static_cast<long long>(clhs->getValue())*crhs->getValue());
         }
         else if (rhs->getType() == Type_Real) 
         {
diff --git a/symbolics/functions/Neg.cpp b/symbolics/functions/Neg.cpp
index 08edced..df6f5b9 100644
--- a/symbolics/functions/Neg.cpp
+++ b/symbolics/functions/Neg.cpp
@@ -63,7 +63,7 @@ BasicPtr Neg::simplify()
         {
             const Int *c = Util::getAsConstPtr<Int>(getArg());
             int i = c->getValue();
-            return Int::New(-i);
+            return Int::New(-static_cast<long long>(i));
         }
     case Type_Real:
         {
@@ -108,7 +108,7 @@ BasicPtr Neg::New(BasicPtr const& e)
     case Type_Int:
         {
             const Int *c = Util::getAsConstPtr<Int>(e);
-            return BasicPtr( new Int(-(*c).getValue()) );
+            return Int::New(-static_cast<long long>((*c).getValue()));
         }
     case Type_Bool:
         {
diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 7b855aa..5da825c 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -404,8 +404,8 @@ BasicPtr Pow::derMatrix( BasicPtr const& derbase )
   if (!Util::is_Int(getExponent(),n))
     throw InternalError("Derivative of a matrix with the exponent " + getExponent()->toString() + " is not supported!");
   BasicPtr sum = Zero::getZero(m_shape);
-  int num = (n < 0) ? -n : n;
-  for (int k=0; k<num; ++k)
+  long long num = (n < 0) ? -static_cast<long long>(n) : n;
+  for (long long k=0; k<num; ++k)
   {
     BasicPtr term = derbase;
     if (k > 0)
diff --git a/symbolics/functions/Util.cpp b/symbolics/functions/Util.cpp
index b62138b..f166617 100644
--- a/symbolics/functions/Util.cpp
+++ b/symbolics/functions/Util.cpp
@@ -25,6 +25,7 @@
 #endif
 
 #include <math.h>
+#include <limits.h>
 
 #include "Util.h"
 #include "Neg.h"
@@ -242,6 +243,9 @@ bool Util::is_Int(BasicPtr const& basic, int &i_Out)
         {
             const Real *r = Util::getAsConstPtr<Real>(basic);
             double dbl = r->getValue();
+            i_Out = 0;
+            if (!(fabs(dbl) < INT_MAX))
+                return false;
             if (dbl >= 0)
                 i_Out = static_cast<int>(dbl+0.5);
             else
diff --git a/symbolics/include/Int.h b/symbolics/include/Int.h
index e9d6b14..5a772a1 100644
--- a/symbolics/include/Int.h
+++ b/symbolics/include/Int.h
@@ -23,6 +23,8 @@ namespace Symbolics
         ~Int();
 
         static BasicPtr New( const int i);
+        // Ergebnis einer ganzzahligen Rechnung, Real falls es nicht in einen Int passt
+        static BasicPtr New( const long long i);
 
         inline int getValue() const  { return m_value; };
 
diff --git a/symbolics/printer/Printer.cpp b/symbolics/printer/Printer.cpp
index 04c70a8..b6c7caf 100644
--- a/symbolics/printer/Printer.cpp
+++ b/symbolics/printer/Printer.cpp
@@ -476,7 +476,7 @@ std::string Printer::join( ConstBasicPtr const& arg,
 			{
 				const Int *i = Util::getAsConstPtr<Int>(a);
 				if (i->getValue() < 0)
-					s += negSep + print( Int::New( -i->getValue() ) );
+					s += negSep + print( Int::New( -static_cast<long long>(i->getValue()) ) );
 				else
 					s += posSep + print( a );
 				break;
-- 
2.43.0


From 8210750c5d621e2caa86b0cdd13b74c7da5e56ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 022/126] fix: optimising a graph in which a sensor equals a
 state, an input or time does not fail

---
 symbolics/graph/PastOptimisation.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index 30987c0..c5d10b3 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -182,11 +182,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
       {
         SymbolPtr as = Util::getAsPtr<Symbol>(exp);
         SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
+        // states, inputs and time have no equation
         if (elem == NULL)
-        {
-          //return;
-          throw InternalError("Symbol: " + as->getName() + " has no equation!");
-        }
+          return;
         if (elem->kind != ALL)
           return;
         NodePtr ap = elem->node;
@@ -212,11 +210,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           const Symbol *sconst = Util::getAsConstPtr< Symbol>(c->getArg());
           Symbol *as = const_cast<Symbol*>(sconst);
           SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
+          // states, inputs and time have no equation
           if (elem == NULL)
-          {
-            //return;
-            throw InternalError("Symbol: " + as->getName() + " has no equation!");
-          }
+            return;
           if (elem->kind != ALL)
             return;
           NodePtr ap = elem->node;
-- 
2.43.0


From 07e9c8d8f901750b9d6c025216e909e31aea9123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 023/126] fix: optimisation does not replace a symbol by the
 right side of an equation for several symbols

---
 symbolics/graph/PastOptimisation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index c5d10b3..f928a4b 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -188,6 +188,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
         if (elem->kind != ALL)
           return;
         NodePtr ap = elem->node;
+        // only an equation for this symbol alone may be replaced
+        if (ap->is_Implicit() || (ap->getRhsSize() != 1) || (ap->getLhs(0)->getType() != Type_Symbol))
+          return;
         if(ap->get_Category() < PARAMETER)
         {
           // set b = a.exp
@@ -216,6 +219,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           if (elem->kind != ALL)
             return;
           NodePtr ap = elem->node;
+          // only an equation for this symbol alone may be replaced
+          if (ap->is_Implicit() || (ap->getRhsSize() != 1) || (ap->getLhs(0)->getType() != Type_Symbol))
+            return;
           if(ap->get_Category() < PARAMETER)
           {
             // set b = a.exp
-- 
2.43.0


From 96f69435574dd2c10d24521a6a9358925ec8feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 024/126] fix: Python code of a scalar product does not index
 the product twice

---
 symbolics/printer/PythonPrinter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/printer/PythonPrinter.cpp b/symbolics/printer/PythonPrinter.cpp
index 60375b8..2d4edf5 100644
--- a/symbolics/printer/PythonPrinter.cpp
+++ b/symbolics/printer/PythonPrinter.cpp
@@ -104,6 +104,9 @@ std::string PythonPrinter::print_Scalar( const Scalar *s )
 /*****************************************************************************/
 {
     if (s == NULL) throw InternalError("PythonPrinter: Scalar is NULL");
+    // a product that is scalar is printed as a scalar already
+    if (s->getArg()->getType() == Type_Mul && s->getArg()->is_Scalar())
+        return print(s->getArg());
     return print(s->getArg()) + "[0,0]";
 }
 /*****************************************************************************/
-- 
2.43.0


From c5bc53e96c9d0a7f895d190a4764499d2062be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 025/126] fix: an equation using an element of an expression
 depends on the whole expression

---
 symbolics/graph/Equation.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/symbolics/graph/Equation.cpp b/symbolics/graph/Equation.cpp
index c237dc0..e408992 100644
--- a/symbolics/graph/Equation.cpp
+++ b/symbolics/graph/Equation.cpp
@@ -359,15 +359,17 @@ bool Equation::DerivativeScanner::process_Arg(BasicPtr const &p, bool &stop)
     inder = false;
     return false;
   }
-  /*
-   DoTo: bei Element(MatrixSymbol*VectorSymbol) geht das hier schief
-   Eine L�sung w�re erst die Element exp zu elementarisieren (hoffnung auf Element(Matrix)) 
-  */
   else if (p->getType() == Type_Element)
   {
     if (inelement)
       throw InternalError("Error: element(element(exp)) is not supported!");
     const Element *e= Util::getAsConstPtr<Element>(p);
+    // an element of any other expression depends on the whole expression
+    BasicPtr arg = e->getArg(0);
+    if (arg->getType() == Type_Der)
+      arg = arg->getArg(0);
+    if (arg->getType() != Type_Symbol)
+      return true;
     dim1 = e->getRow();
     dim2 = e->getCol();
     inelement = true;
@@ -446,6 +448,12 @@ bool Equation::SymbolScanner::process_Arg(BasicPtr const &p, bool &stop)
     if (inelement)
       throw InternalError("Error: element(element(exp)) is not supported!");
     const Element *e= Util::getAsConstPtr<Element>(p);
+    // an element of any other expression depends on the whole expression
+    BasicPtr arg = e->getArg(0);
+    if (arg->getType() == Type_Der)
+      arg = arg->getArg(0);
+    if (arg->getType() != Type_Symbol)
+      return true;
     dim1 = e->getRow();
     dim2 = e->getCol();
     inelement = true;
-- 
2.43.0


From 367c45e86b347d17b0276aa1b678fb104282e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 026/126] fix: an assignment of several expressions lists every
 expression, not the first one repeatedly

---
 symbolics/wrapper/CAssignment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CAssignment.cpp b/symbolics/wrapper/CAssignment.cpp
index 11094e4..7e2aa93 100644
--- a/symbolics/wrapper/CAssignment.cpp
+++ b/symbolics/wrapper/CAssignment.cpp
@@ -119,7 +119,10 @@ static PyObject* returnBasicPtrVec(Symbolics::BasicPtrVec &basicVec)
 {
 	// Wir haben kein Element
 	if (basicVec.size() == 0)
+	{
+		Py_IncRef(Py_None);
 		return Py_None;
+	}
 
 	// Wir haben genau ein Element
 	if (basicVec.size() == 1)
@@ -140,7 +143,7 @@ static PyObject* returnBasicPtrVec(Symbolics::BasicPtrVec &basicVec)
 		for (size_t i=0;i<basicVec.size();i++)
 		{
 			CBasicObject* basic = new CBasicObject();
-			basic->m_basic = basicVec[0];
+			basic->m_basic = basicVec[i];
 			PyObject *obj = PyObject_Init( basic, &CBasicObjectType );
 			PyList_SetItem(pylist,i,obj);
 		}
-- 
2.43.0


From 1a92556c644b1bf4fd77d71bc37c605e62da64bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 027/126] fix: a system with more or fewer equations than
 unknowns is refused instead of producing empty output

---
 symbolics/graph/UnMatchedSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/graph/UnMatchedSystem.cpp b/symbolics/graph/UnMatchedSystem.cpp
index 918079c..9ac4ecd 100644
--- a/symbolics/graph/UnMatchedSystem.cpp
+++ b/symbolics/graph/UnMatchedSystem.cpp
@@ -518,8 +518,8 @@ double UnMatchedSystem::matchSystem()
   // check size
   if (m_equations.size() != (m_incidencematrixT.size() - m_states.size() - m_parameter.size()))
   {
-    toGraphML("IncidenceMatrix.graphml");
-    return -1;
+    throw InternalError("Number of equations (" + str(m_equations.size()) + ") is not equal to number of unknowns ("
+      + str(m_incidencematrixT.size() - m_states.size() - m_parameter.size()) + ")!");
   }
   //
   if (debugmode)
-- 
2.43.0


From ef9ebc70eb1298d2d6a1f2e199de9694610ad813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:01 +0000
Subject: [PATCH 028/126] fix: equations which depend on each other are refused
 instead of being put in an arbitrary order

---
 symbolics/graph/MatchedSystem.cpp |  2 ++
 symbolics/graph/Node.cpp          | 34 +++++++++++++++++++++++++++++++
 symbolics/graph/include/Node.h    |  2 ++
 3 files changed, 38 insertions(+)

diff --git a/symbolics/graph/MatchedSystem.cpp b/symbolics/graph/MatchedSystem.cpp
index 7983fa5..d36c8a8 100644
--- a/symbolics/graph/MatchedSystem.cpp
+++ b/symbolics/graph/MatchedSystem.cpp
@@ -39,6 +39,8 @@ double MatchedSystem::buildGraph()
   {
     m_nodes[i]->findParentsNodes();
   }
+  // a node which depends on itself cannot be put in an order
+  Node::checkLoops(m_nodes);
   //return t2-t1;
   return Util::getTime()-t1;
 }
diff --git a/symbolics/graph/Node.cpp b/symbolics/graph/Node.cpp
index b5d101b..5696968 100644
--- a/symbolics/graph/Node.cpp
+++ b/symbolics/graph/Node.cpp
@@ -286,6 +286,40 @@ void Node::subs(ConstBasicPtr const& old_exp, BasicPtr const& new_exp)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+void Node::checkLoops(std::vector<NodePtr> const& nodes)
+/*****************************************************************************/
+{
+  // remove one after the other the nodes all of whose parents have been removed
+  std::map<Node*,size_t> open;
+  std::map<Node*,std::vector<Node*> > dependent;
+  std::vector<Node*> ready;
+  for (size_t i=0;i<nodes.size();++i)
+  {
+    Node *n = nodes[i].get();
+    NodePtrSet const& parents = n->m_parents;
+    open[n] = parents.size();
+    for (NodePtrSet::const_iterator ii=parents.begin();ii!=parents.end();++ii)
+      dependent[(*ii).get()].push_back(n);
+    if (parents.empty())
+      ready.push_back(n);
+  }
+  while (!ready.empty())
+  {
+    Node *n = ready.back();
+    ready.pop_back();
+    open.erase(n);
+    std::vector<Node*> const& d = dependent[n];
+    for (size_t i=0;i<d.size();++i)
+      if (--open[d[i]] == 0)
+        ready.push_back(d[i]);
+  }
+  if (!open.empty())
+    throw InternalError("Algebraic loop: the equation " + open.begin()->first->m_eqn->toString() + " depends on itself!");
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 void Node::node_iterate_depth_first(NodePtr p, Visitor &v)
 /*****************************************************************************/
diff --git a/symbolics/graph/include/Node.h b/symbolics/graph/include/Node.h
index 1e9a9f4..2573f5e 100644
--- a/symbolics/graph/include/Node.h
+++ b/symbolics/graph/include/Node.h
@@ -113,6 +113,8 @@ namespace Symbolics
       };
 
       static void node_iterate_depth_first(NodePtr p, Visitor &v);
+      // throws if a node depends on itself
+      static void checkLoops(std::vector<NodePtr> const& nodes);
 
       inline std::string toString() { return m_eqn->toString();};
 
-- 
2.43.0


From 83d50f8a2fa398819a460103fca4c3bdf1d0c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 029/126] fix: a matrix of expressions which are not scalar is
 refused

---
 symbolics/wrapper/CMatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolics/wrapper/CMatrix.cpp b/symbolics/wrapper/CMatrix.cpp
index d580e83..97359bf 100644
--- a/symbolics/wrapper/CMatrix.cpp
+++ b/symbolics/wrapper/CMatrix.cpp
@@ -199,6 +199,7 @@ void getElements( PyObject* arg, int level, int dim[], BasicPtrVec &elements )
 		// Wir haben einen Skalar
         BasicPtr a( getBasic(item) );
 		if (a.get() == NULL) throw InternalError("items in list must be in (int, float, CBasic)!");
+		if (a->getShape().getNumEl() != 1) throw ShapeError("items in list must be scalar!");
 
 		// Der Liste hinzufuegen
 		elements.push_back(a);
-- 
2.43.0


From e63745f93746201eeac8032a16fa1cbbb578d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 030/126] fix: an equation for a variable which is not part of
 the graph is refused

---
 symbolics/graph/EquationSystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index a1e230d..12249fd 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -357,6 +357,11 @@ void EquationSystem::checkEquation(DerivativeScanner *scanner,
     if (is == m_SymbolMap.end())
       throw VarUnknownError(ii->first->getName());
   }
+  for (SymbolPtrElemMap::iterator ii = symbols.begin();ii!=symbols.end();++ii)
+  {
+    if (m_SymbolMap.find(ii->first->getName()) == m_SymbolMap.end())
+      throw VarUnknownError(ii->first->getName());
+  }
   // balanced ?
   if (symbols.size() == 0)
     m_balanced = false;
-- 
2.43.0


From 188df8c157263d88df736735c7550329360c7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 031/126] fix: the O(n) generator has the sign of the
 gyroscopic torque right

---
 pymbs/processing/generator_order_n.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 752ba33..413aaaa 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -615,9 +615,7 @@ class Generator_OrderN(Generator):
                 J_2 = graph.addEquation(J%bName+"_2", -J_1)
                 J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
                 body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))        # (21 a)
-    #            D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._l_tilde*body._F_ext - body._K_om_tilde*body.inertia*body.K_om)
-                # Warum  + body._K_om_tilde*body.inertia*body.K_om und nicht -
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._K_om_tilde*body.inertia*body.K_om)
+                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
                 D_2 = graph.addEquation(D%bName+"_2", body._F_ext - body.mass*body._beta_star*body.cg)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]))                               # (21 b)
                 tmp_e = block_vector([joint.Phi, joint.Psi])
-- 
2.43.0


From 1dd459150aee9b9e2224efde4575ce3072448f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 032/126] fix: a displacement along a joint in a rotated frame
 is rotated into the parent body in the O(n) generator

---
 pymbs/processing/generator_order_n.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 413aaaa..f605748 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -208,7 +208,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -228,7 +228,7 @@ class Generator_OrderN(Generator):
                 body._K_om_tilde = graph.addEquation(omega_tilde%bName, skew(body.K_om), shape=(3,3))
 
                 # Velocity
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*cs.R*joint.Psi), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
@@ -275,7 +275,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -305,7 +305,7 @@ class Generator_OrderN(Generator):
                 #K_om_q = Symbolics.Matrix = ([[body.K_om[0,0]*body.K_om[0,0]],[body.K_om[1,0]*body.K_om[1,0]],[body.K_om[2,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[1,0]],[body.K_om[1,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[2,0]]])
                 body._K_om_q = graph.addEquation(omega_q%bName,omegaq)
 
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*cs.R*joint.Psi), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
@@ -1169,7 +1169,7 @@ class Generator_OrderN(Generator):
             R_rel = transpose(csref.I_R)*cs.I_R*cs.R     # to csref from cs
 
         R = cs.R*body._R    # to cs from parentBody
-        p_z_p_b = graph.addEquation(p_z%(pName,bcsName), joint.coordSys.p+joint.Psi*joint.q+transpose(body._R)*cs.p, shape=(3,))    # w.r.t. parentBody
+        p_z_p_b = graph.addEquation(p_z%(pName,bcsName), joint.coordSys.p+joint.coordSys.R*joint.Psi*joint.q+transpose(body._R)*cs.p, shape=(3,))    # w.r.t. parentBody
         # both _alpha_c and _omegad_C are w.r.t. csref
         _alpha_C = graph.addEquation(alpha_C%bcsName, R_rel*( body._R*(parentBody._alpha_C + parentBody._beta_C*p_z_p_b) + 2*body._K_om_tilde*joint.Psi*joint.qd ), shape=(3,)) # (21, Recursive Paper)
         _omegad_C = graph.addEquation(omegad_C%bcsName, R_rel*body._omegad_C, shape=(3,)) # (19, Recursive Paper)
-- 
2.43.0


From 3c3e89c8487516b6e8da93f013b90214ff931d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:58 +0000
Subject: [PATCH 033/126] fix: generated intermediate variables of different
 bodies and frames do not share a name

---
 pymbs/processing/generator.py           | 28 +++++++--------
 pymbs/processing/generator_order_n.py   | 46 ++++++++++++-------------
 pymbs/processing/generator_recursive.py |  8 ++---
 3 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/pymbs/processing/generator.py b/pymbs/processing/generator.py
index 8d82d5a..27dc97c 100644
--- a/pymbs/processing/generator.py
+++ b/pymbs/processing/generator.py
@@ -23,32 +23,32 @@ omegad_C = 'int_omegad_C_%s'
 omegad_C_tilde = 'int_omegad_C_tilde_%s'
 alpha_C = 'int_alpha_C_%s'
 beta_C = 'int_beta_C_%s'
-p = 'int_p_%s_%s'
-p_tilde = 'int_p_tilde_%s_%s'
-p_LOC = 'int_p_loc_%s_%s'
-p_z = 'int_p_z_%s_%s'
-p_z_tilde = 'int_p_z_tilde_%s_%s'
-O_M = 'int_O_M_%s_%s'
-O_M_tilde = 'int_O_M_tilde_%s_%s'
-A_M = 'int_A_M_%s_%s'
+p = 'int_p_%s__%s'
+p_tilde = 'int_p_tilde_%s__%s'
+p_LOC = 'int_p_loc_%s__%s'
+p_z = 'int_p_z_%s__%s'
+p_z_tilde = 'int_p_z_tilde_%s__%s'
+O_M = 'int_O_M_%s__%s'
+O_M_tilde = 'int_O_M_tilde_%s__%s'
+A_M = 'int_A_M_%s__%s'
 m = 'int_m_%s'
 I = 'int_I_%s'
 I_LOC = 'int_I_loc_%s'
 l = 'int_l_%s'
-l2 = 'int_l_%s_%s'
+l2 = 'int_l_%s__%s'
 l_LOC = 'int_l_loc_%s'
 l_tilde = 'int_l_tilde_%s'
-l2_tilde = 'int_l_tilde_%s_%s'
+l2_tilde = 'int_l_tilde_%s__%s'
 G_C = 'int_G_C_%s'
-G_M = 'int_G_M_%s_%s'
+G_M = 'int_G_M_%s__%s'
 F = 'int_F_%s'
 F_C = 'int_F_C_%s'
-F_M = 'int_F_M_%s_%s'
+F_M = 'int_F_M_%s__%s'
 L = 'int_L_%s'
 L_C = 'int_L_C_%s'
-L_M = 'int_L_M_%s_%s'
+L_M = 'int_L_M_%s__%s'
 T1 = 'int_T_%s'
-T2 = 'int_T_loc_%s_%s'
+T2 = 'int_T_loc_%s__%s'
 F = 'int_F_%s'
 F_EXT = 'int_F_ext_%s'
 L = 'int_L_%s'
diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index f605748..18e0bcc 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -14,7 +14,7 @@ import pymbs.symbolics as sym
 
 
 BETA_STAR = 'int_beta_star_%s'
-RR = 'int_RR_%s_%s'
+RR = 'int_RR_%s__%s'
 A_STAR = 'int_a_star_%s'
 J = 'int_J_%s'
 J_HAT = 'int_J_hat_%s'
@@ -240,10 +240,10 @@ class Generator_OrderN(Generator):
 
                     # These are needed for the OrderN algorithm
                     body._beta_star = graph.addEquation(BETA_STAR%bName, body._K_om_tilde*body._K_om_tilde)             # (16)
-                    R_tmp = graph.addEquation(RR%(bName,pName)+"_1", -body._R*body._p_z_tilde)
+                    R_tmp = graph.addEquation(RR%(bName,pName)+"__1", -body._R*body._p_z_tilde)
                     body._RR = graph.addEquation(RR%(bName,pName), block_matrix([[body._R, zeros((3,3))], [R_tmp, body._R]]) )       # (22 a)
-                    a_tmp1 = graph.addEquation(A_STAR%bName+"_1", joint.qd*body._K_om_tilde*joint.Phi, shape=(3,))
-                    a_tmp2 = graph.addEquation(A_STAR%bName+"_2", body._R*parentBody._beta_star*body._p_z+2*joint.qd*body._K_om_tilde*joint.Psi)
+                    a_tmp1 = graph.addEquation(A_STAR%bName+"__1", joint.qd*body._K_om_tilde*joint.Phi, shape=(3,))
+                    a_tmp2 = graph.addEquation(A_STAR%bName+"__2", body._R*parentBody._beta_star*body._p_z+2*joint.qd*body._K_om_tilde*joint.Psi)
                     body._a_star = graph.addEquation(A_STAR%bName, block_vector([ a_tmp1, a_tmp2 ]))                                 # (22 b)
 
                     # Constraints
@@ -317,10 +317,10 @@ class Generator_OrderN(Generator):
 
                     # These are needed for the OrderN algorithm
                     body._beta_star = graph.addEquation(BETA_STAR%bName, body._K_om_tilde*body._K_om_tilde)             # (16)
-                    R_tmp = graph.addEquation(RR%(bName,pName)+"_1", -body._R*body._p_z_tilde)
+                    R_tmp = graph.addEquation(RR%(bName,pName)+"__1", -body._R*body._p_z_tilde)
                     body._RR = graph.addEquation(RR%(bName,pName), block_matrix([[body._R, zeros((3,3))], [R_tmp, body._R]]) )       # (22 a)
-                    a_tmp1 = graph.addEquation(A_STAR%bName+"_1", joint.qd*body._K_om_tilde*joint.Phi, shape=(3,))
-                    a_tmp2 = graph.addEquation(A_STAR%bName+"_2", body._R*parentBody._beta_star*body._p_z+2*joint.qd*body._K_om_tilde*joint.Psi)
+                    a_tmp1 = graph.addEquation(A_STAR%bName+"__1", joint.qd*body._K_om_tilde*joint.Phi, shape=(3,))
+                    a_tmp2 = graph.addEquation(A_STAR%bName+"__2", body._R*parentBody._beta_star*body._p_z+2*joint.qd*body._K_om_tilde*joint.Psi)
                     body._a_star = graph.addEquation(A_STAR%bName, block_vector([ a_tmp1, a_tmp2 ]))                                 # (22 b)
 
                     # Constraints
@@ -479,19 +479,19 @@ class Generator_OrderN(Generator):
                 csName = childCS.name
                 # Do the Update
                 childCS.R = graph.addEquation(T2%(bName,csName), childCS.R, shape=(3,3))
-                childCS.I_R = graph.addEquation(T1%('%s_%s'%(bName,csName)), body.I_R*childCS.R, shape=(3,3))
+                childCS.I_R = graph.addEquation(T1%('%s__%s'%(bName,csName)), body.I_R*childCS.R, shape=(3,3))
 
                 childCS._p = graph.addEquation(p%(bName,csName), childCS.p, shape=(3,))
                 childCS._p_tilde = graph.addEquation(p_tilde%(bName,csName), skew(childCS._p), shape=(3,3) )
 
-                childCS.I_r = graph.addEquation(I_p%('%s_%s'%(bName,csName)), body.I_r + body.I_R*childCS.p, shape=(3,))
-                childCS.I_v = graph.addEquation(I_v%('%s_%s'%(bName,csName)), body.I_v + body.I_R*(body._K_om_tilde*childCS.p), shape=(3,))
+                childCS.I_r = graph.addEquation(I_p%('%s__%s'%(bName,csName)), body.I_r + body.I_R*childCS.p, shape=(3,))
+                childCS.I_v = graph.addEquation(I_v%('%s__%s'%(bName,csName)), body.I_v + body.I_R*(body._K_om_tilde*childCS.p), shape=(3,))
 
                 childCS.K_om = body.K_om
                 childCS.I_om = body.I_om        # compatibility
 
                 if (not self.kinematicsOnly):
-                    childCS.I_a = graph.addEquation(I_a%('%s_%s'%(bName,csName)), body.I_a + body.I_R*(body._K_al_tilde + body._K_om_tilde**2)*childCS._p, shape=(3,))
+                    childCS.I_a = graph.addEquation(I_a%('%s__%s'%(bName,csName)), body.I_a + body.I_R*(body._K_al_tilde + body._K_om_tilde**2)*childCS._p, shape=(3,))
                     childCS.K_al = body.K_al    # omegad_BodyName here, since it is equal to omegad_csName anyway
                     childCS.I_al = body.I_al    # compatibility
 
@@ -611,18 +611,18 @@ class Generator_OrderN(Generator):
                     body._WT_constraint = graph.addEquation(WT_CONSTR%bName, Wt_constraint)
                 body._Q = 0     # Joint load, could be used for implementing a better jointLoad later
 
-                J_1 = graph.addEquation(J%bName+"_1", body.mass*body._l_tilde)
-                J_2 = graph.addEquation(J%bName+"_2", -J_1)
-                J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
+                J_1 = graph.addEquation(J%bName+"__1", body.mass*body._l_tilde)
+                J_2 = graph.addEquation(J%bName+"__2", -J_1)
+                J_3 = graph.addEquation(J%bName+"__3", body.mass*eye((3,3)))
                 body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))        # (21 a)
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
-                D_2 = graph.addEquation(D%bName+"_2", body._F_ext - body.mass*body._beta_star*body.cg)
+                D_1 = graph.addEquation(D%bName+"__1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
+                D_2 = graph.addEquation(D%bName+"__2", body._F_ext - body.mass*body._beta_star*body.cg)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]))                               # (21 b)
                 tmp_e = block_vector([joint.Phi, joint.Psi])
                 body._e = graph.addEquation(E%bName, tmp_e)                   # (22 c)
                 body._e_index = self.getIndex(tmp_e)
                 if (self.hasKinematicLoops):
-                    #D_GAMMA_1 = graph.addEquation(D_GAMMA%bName+"_1", body._l_tilde*body._WF_constraint + body._WT_constraint)
+                    #D_GAMMA_1 = graph.addEquation(D_GAMMA%bName+"__1", body._l_tilde*body._WF_constraint + body._WT_constraint)
                     #body._d_gamma = graph.addEquation(D_GAMMA%bName, blockMatrix([[D_GAMMA_1], [body._WF_constraint]]))     # (47)
                     # Umrechnung Kraft<->Moment ist schon in _WT_constraint enthalten
                     body._d_gamma = graph.addEquation(D_GAMMA%bName, block_matrix([[body._WT_constraint], [body._WF_constraint]]))     # (47)
@@ -862,21 +862,21 @@ class Generator_OrderN(Generator):
                 d_q_hat = body._d_q
 
                 # mass matrix
-                J_1 = graph.addEquation(J%bName+"_1", skew(mDCM),shape=(3,3))
-                J_2 = graph.addEquation(J%bName+"_2", -J_1)
-                J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
+                J_1 = graph.addEquation(J%bName+"__1", skew(mDCM),shape=(3,3))
+                J_2 = graph.addEquation(J%bName+"__2", -J_1)
+                J_3 = graph.addEquation(J%bName+"__3", body.mass*eye((3,3)))
 
                 body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))      # (21 a)
 #------h_g fehlt----- stimmt hier '-' , es stand vorher '+' Gravitation fehlt
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext)
-                D_2 = graph.addEquation(D%bName+"_2", body._F_ext)
+                D_1 = graph.addEquation(D%bName+"__1", body._L_ext)
+                D_2 = graph.addEquation(D%bName+"__2", body._F_ext)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]) + block_vector([h_omega_r, h_omega_t]))                             # (21 b)
                 # joint.Phi, joint.Psi is no part of PHI and PSI from SID-File!!
                 tmp_e = block_vector([joint.Phi, joint.Psi])
                 body._e = graph.addEquation(E%bName, tmp_e)                   # (22 c)
                 body._e_index = self.getIndex(tmp_e)
                 if (self.hasKinematicLoops):
-                    #D_GAMMA_1 = graph.addEquation(D_GAMMA%bName+"_1", body._l_tilde*body._WF_constraint + body._WT_constraint)
+                    #D_GAMMA_1 = graph.addEquation(D_GAMMA%bName+"__1", body._l_tilde*body._WF_constraint + body._WT_constraint)
                     #body._d_gamma = graph.addEquation(D_GAMMA%bName, blockMatrix([[D_GAMMA_1], [body._WF_constraint]]))     # (47)
                     # Umrechnung Kraft<->Moment ist schon in _WT_constraint enthalten
                     body._d_gamma = graph.addEquation(D_GAMMA%bName, block_matrix([[body._WT_constraint], [body._WF_constraint]]))     # (47)
diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 612938b..7a62061 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -430,16 +430,16 @@ class Generator_Recursive(Generator):
                 csName = childCS.name
                 # Do the Update
                 T2_b_cs = graph.addEquation(T2%(bName,csName), childCS.R, shape=(3,3))
-                childCS.I_R = graph.addEquation(T1%('%s_%s'%(bName,csName)), body.I_R*T2_b_cs, shape=(3,3))
+                childCS.I_R = graph.addEquation(T1%('%s__%s'%(bName,csName)), body.I_R*T2_b_cs, shape=(3,3))
 
                 p_loc_b_cs = graph.addEquation(p_LOC%(bName,csName), childCS.p, shape=(3,))
                 childCS._p = graph.addEquation(p%(bName,csName), body.I_R*p_loc_b_cs, shape=(3,))
                 childCS._p_tilde = graph.addEquation(p_tilde%(bName,csName), skew(childCS._p), shape=(3,3) )
-                childCS.I_r = graph.addEquation(I_p%('%s_%s'%(bName,csName)), body.I_r + childCS._p, shape=(3,))
-                childCS.I_v = graph.addEquation(I_v%('%s_%s'%(bName,csName)), body.I_v + body._I_om_tilde*childCS._p, shape=(3,))
+                childCS.I_r = graph.addEquation(I_p%('%s__%s'%(bName,csName)), body.I_r + childCS._p, shape=(3,))
+                childCS.I_v = graph.addEquation(I_v%('%s__%s'%(bName,csName)), body.I_v + body._I_om_tilde*childCS._p, shape=(3,))
 
                 if (not self.kinematicsOnly):
-                    childCS.I_a = graph.addEquation(I_a%('%s_%s'%(bName,csName)), body.I_a + (body._I_al_tilde + body._I_om_tilde**2)*childCS._p, shape=(3,))
+                    childCS.I_a = graph.addEquation(I_a%('%s__%s'%(bName,csName)), body.I_a + (body._I_al_tilde + body._I_om_tilde**2)*childCS._p, shape=(3,))
 
                 # K_om is written w.r.t. the Inertial Frame!!!
                 childCS.I_om = body.I_om
-- 
2.43.0


From 8861a0b81294800f7e4ef63a91ebaefd4d61892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:48 +0000
Subject: [PATCH 034/126] fix: the O(n) generator rotates forces and torques
 given in another coordinate system into the body

---
 pymbs/processing/generator_order_n.py | 28 ++++++++-------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 18e0bcc..e2d7c12 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -568,16 +568,10 @@ class Generator_OrderN(Generator):
                         # Load must have this Coordinate System (child) as a parent or a child!
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
-                        # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
-                        else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                        # Calculate Rotation Matrix (body <- I <- ref)
+                        T = transpose(body.I_R)
+                        if (load.ref is not None): # otherwise ref = inertial frame
+                            T = T*load.ref.I_R
 
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
@@ -697,16 +691,10 @@ class Generator_OrderN(Generator):
                         # Load must have this Coordinate System (child) as a parent or a child!
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
-                        # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
-                        else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                        # Calculate Rotation Matrix (body <- I <- ref)
+                        T = transpose(body.I_R)
+                        if (load.ref is not None): # otherwise ref = inertial frame
+                            T = T*load.ref.I_R
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
                             Phi_SID = None
-- 
2.43.0


From 3d96d6d337fdacb017fc6ae946f34ccf59016e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:48 +0000
Subject: [PATCH 035/126] fix: a joint load acts at the joint when the joint
 ends at a displaced frame

---
 pymbs/processing/loads/joint_load.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/loads/joint_load.py b/pymbs/processing/loads/joint_load.py
index d107082..d8a2fbe 100644
--- a/pymbs/processing/loads/joint_load.py
+++ b/pymbs/processing/loads/joint_load.py
@@ -3,7 +3,7 @@ from pymbs.common.functions import transpose, norm
 
 from pymbs.processing import Joint
 
-from pymbs.symbolics import eye
+from pymbs.symbolics import eye, zeros
 
 
 class JointLoad(Load):
@@ -33,7 +33,8 @@ class JointLoad(Load):
 
         # Constructor of Super Class
         # BugFix for 014:
-        if (joint.body.CS_0.R != eye(3)):
+        # CS_0 is not at the joint if the joint does not end at the body itself
+        if ((joint.body.CS_0.R != eye(3)) or (joint.body.CS_0.p != zeros((3,)))):
             if (not hasattr(joint.body, '_CS_0')):
                 joint.body._CS_0 = joint.body.addFrame('_int_CS0_2')
             Load.__init__(self, name, joint.body._CS_0, joint.coordSys, force, torque)
-- 
2.43.0


From bade189c12310b4e9e7c83740ccd13a9c9c44d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:48 +0000
Subject: [PATCH 036/126] fix: explicit generator: angular velocities for
 sensors and vector loads with a single coordinate

---
 pymbs/processing/generator_explicit.py | 58 +++++++++++++++++++-------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 6b52d40..5864db6 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -73,6 +73,8 @@ class Generator_Explicit(Generator):
                 body.I_v = symbolics.zeros((3,))
                 body.I_a = symbolics.zeros((3,))
                 body.I_R = symbolics.eye((3,3))
+                body.I_om = symbolics.zeros((3,))
+                body.I_al = symbolics.zeros((3,))
                 body.K_om = symbolics.zeros((3,))
                 body.K_al = symbolics.zeros((3,))
             else:
@@ -93,6 +95,8 @@ class Generator_Explicit(Generator):
     #            body.K_al = body.I_R.transpose()*I_al
     #            body.K_al = body.K_al.applyfunc(lambda x: pymbs.Symbolics.trigsimp(x, recursive=True))
                 body.K_al = jacobian(body.K_om, self.q)*self.qd + jacobian(body.K_om, self.qd)*self.qdd
+                body.I_om = body.I_R*body.K_om
+                body.I_al = body.I_R*body.K_al
 
             # Update cg
             body.I_l = body.I_r + body.I_R*body.cg
@@ -103,12 +107,43 @@ class Generator_Explicit(Generator):
                 # Do the Update
                 childCS.K_om = transpose(childCS.R)*body.K_om
                 childCS.K_al = transpose(childCS.R)*body.K_al
+                childCS.I_om = body.I_om
+                childCS.I_al = body.I_al
                 childCS.I_R = body.I_R*childCS.R
                 childCS.I_r = body.I_r + body.I_R*childCS.p
                 childCS.I_v = jacobian(childCS.I_r, self.q)*self.qd
                 childCS.I_a = jacobian(childCS.I_v, self.q)*self.qd + jacobian(childCS.I_v, self.qd)*self.qdd
 
 
+    def distribution(self, n, shape):
+        '''
+        Empty Distribution Matrix of a Load which is Distributed by a Matrix of the given shape
+        '''
+        if (n == 1):
+            return Matrix((shape[-1] if len(shape) > 1 else 1,))
+        if (len(shape) > 1):
+            return Matrix((n,shape[1]))
+        return Matrix((n,))
+
+
+    def distribute(self, n, J, W):
+        '''
+        Share of a Load in the Coordinates: J^T*W, a column vector W^T*J if there is only one coordinate
+        '''
+        if (n == 1):
+            return transpose(W)*J
+        return transpose(J)*W
+
+
+    def generalise(self, n, W, shape, load):
+        '''
+        Generalised Force of a Load
+        '''
+        if ((n == 1) and (len(shape) > 1)):
+            return transpose(W)*load
+        return W*load
+
+
     def calcEquations(self, graph, inertial, bodies, joints, fels, loops, q, qd):
         '''
         Obtain Equations of Motion Using an Explicit Newton/Euler Algorithm
@@ -188,14 +223,9 @@ class Generator_Explicit(Generator):
 
             sWf = fel.Wf.shape()
             sWt = fel.Wt.shape()
-            if (len(sWf) > 1):
-                Wf = Matrix((n,sWf[1]))
-            else:
-                Wf = Matrix((n,))
-            if (len(sWt) > 1):
-                Wt = Matrix((n,sWt[1]))
-            else:
-                Wt = Matrix((n,))
+            # With a single coordinate the distribution of a vector is kept as a column vector
+            Wf = self.distribution(n, sWf)
+            Wt = self.distribution(n, sWt)
 
             # Parent
             Wf_temp = Matrix((3,3))
@@ -213,8 +243,8 @@ class Generator_Explicit(Generator):
                     Wft_temp = skew(cs.p - body.cg)*transpose(body.I_R)*Rref*fel.Wf
                     Wt_temp = transpose(body.I_R)*Rref*fel.Wt
 
-                Wf += transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
-                Wt += transpose(J2[i:i+3,:])*Wt_temp
+                Wf += self.distribute(n, J1[i:i+3,:], Wf_temp) + self.distribute(n, J2[i:i+3,:], Wft_temp)
+                Wt += self.distribute(n, J2[i:i+3,:], Wt_temp)
 
             # Child
             Wf_temp = Matrix((3,3))
@@ -233,8 +263,8 @@ class Generator_Explicit(Generator):
                         Wft_temp = skew(cs.p - body.cg)*transpose(body.I_R)*Rref*fel.Wf
                         Wt_temp = transpose(body.I_R)*Rref*fel.Wt
 
-                    Wf -= transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
-                    Wt -= transpose(J2[i:i+3,:])*Wt_temp
+                    Wf -= self.distribute(n, J1[i:i+3,:], Wf_temp) + self.distribute(n, J2[i:i+3,:], Wft_temp)
+                    Wt -= self.distribute(n, J2[i:i+3,:], Wt_temp)
 
             # Simplify Them
             print("Simplifying Load-Distribution Matrices")
@@ -244,10 +274,10 @@ class Generator_Explicit(Generator):
             # Add Them to the List
             if (fel.force is not None):
                 Wf_sym = graph.addEquation('WF_%s' % fel.name, Wf)
-                f_ext += Wf_sym * fel.force
+                f_ext += self.generalise(n, Wf_sym, sWf, fel.force)
             if (fel.torque is not None):
                 Wt_sym = graph.addEquation('WT_%s' % fel.name, Wt)
-                f_ext += Wt_sym * fel.torque
+                f_ext += self.generalise(n, Wt_sym, sWt, fel.torque)
 
         print("Simplifying M")
         M_red = simple(M_red)
-- 
2.43.0


From 873f11b378e81a74bd4ea23cb703115afeaf1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 037/126] fix: the external loads enter the constraint torque
 of a joint once

---
 pymbs/processing/generator_recursive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 7a62061..1111624 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -536,7 +536,7 @@ class Generator_Recursive(Generator):
 
             F_b += body.mass*(body._I_l_ddot+self.inertial._alpha_C)-body._F_ext   # (24), self.inertial._alpha_C = -g, see p.189 below (10)
             body._F = graph.addEquation(F%bName, F_b, shape=(3,))
-            L_b += body._l_tilde*body._F + \
+            L_b += body._l_tilde*(body._F + body._F_ext) + \
                    body.inertia*body.I_al + \
                    body._I_om_tilde*body.inertia*body.I_om - \
                    body._L_ext   # (26)
-- 
2.43.0


From 51a0c0f28443b3fbd8a815216df862d9d0422168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 038/126] fix: the energy sensor works with every generator and
 uses the inertia about the centre of gravity once

---
 pymbs/processing/generator_order_n.py     | 2 ++
 pymbs/processing/generator_recursive.py   | 1 +
 pymbs/processing/sensors/energy_sensor.py | 8 +++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index e2d7c12..18f1c34 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -216,6 +216,7 @@ class Generator_OrderN(Generator):
                 body._l = graph.addEquation(l%bName, body.cg, shape=(3,))
                 body._l_tilde = graph.addEquation(l_tilde%bName, skew(body._l), shape=(3,3))
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
+                body._inertia_cg = body.inertia
                 body.inertia = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
 
                 # Position
@@ -283,6 +284,7 @@ class Generator_OrderN(Generator):
                 body._l = graph.addEquation(l%bName, body.cg, shape=(3,))
                 body._l_tilde = graph.addEquation(l_tilde%bName, skew(body._l), shape=(3,3))
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
+                body._inertia_cg = body.inertia
                 body.inertia = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
 
                 # Position
diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 1111624..96ad841 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -129,6 +129,7 @@ class Generator_Recursive(Generator):
                 # Mass and Inertia
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
                 I_loc_b = graph.addEquation(I_LOC%bName, body.inertia, shape=(3,3))
+                body._inertia_cg = I_loc_b
                 # update body.inertia (reference to this variable)
                 body.inertia = graph.addEquation(I%bName, body.I_R * I_loc_b * transpose(body.I_R), shape=(3,3))
 
diff --git a/pymbs/processing/sensors/energy_sensor.py b/pymbs/processing/sensors/energy_sensor.py
index 5fafbd6..af003fc 100644
--- a/pymbs/processing/sensors/energy_sensor.py
+++ b/pymbs/processing/sensors/energy_sensor.py
@@ -28,9 +28,10 @@ class EnergySensor(Sensor):
         '''
         assert( graph is not None )
 
-        # get mass and Inertia of body
+        # get mass and Inertia of body (about the centre of gravity, w.r.t. the body frame)
+        # generators may have replaced body.inertia by the inertia they need
         m = self.body.mass
-        I = self.body.inertia
+        I = getattr(self.body, '_inertia_cg', self.body.inertia)
 
         # get potential Energy
         assert self.body.I_l is not None, 'Position of Body "%s" has not been calculated!'%self.body
@@ -38,8 +39,9 @@ class EnergySensor(Sensor):
 
         # get kinetic energy
         assert self.body.I_ldot is not None, 'Velocity of Body "%s" has not been calculated!'%self.body
+        om = transpose(self.body.I_R)*self.body.I_om
         E_kin = 0.5*m*transpose(self.body.I_ldot)*self.body.I_ldot + \
-                0.5*transpose(self.body.K_om)*I*self.body.K_om
+                0.5*transpose(om)*I*om
 
         # Total Energy
         E = E_pot + E_kin
-- 
2.43.0


From 551cb86d70bb64d511d04793eb2abc4cc31c3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:40 +0000
Subject: [PATCH 039/126] fix: accelerations in the O(n) generator do not
 contain gravity and respect closed loops

---
 pymbs/processing/generator_order_n.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 18f1c34..af9dcf4 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -984,8 +984,8 @@ class Generator_OrderN(Generator):
                     qdd[i] = graph.addEquation(qdd_i, (1/b._rho)*(transpose(b._e)*b._d_hat + b._Q - transpose(b._e)*b._J_hat*(b._a_star + b._RR*p._a) ) )   # (26)
 
             b._a = graph.addEquation(A%b.name, b._RR*p._a + b._a_star + b._e*qdd[i]) # (22)
-            graph.addEquation(b.K_al, b._a[0:3])
-            graph.addEquation(b.I_a, b.I_R*b._a[3:6])
+            if (not self.hasKinematicLoops):
+                self.bodyAcceleration(graph, b, b._a)
 
             if isinstance(b,FlexibleBody):
                 # calculate the flexible accelerations
@@ -1053,6 +1053,8 @@ class Generator_OrderN(Generator):
 
             # Adjust Accelerations
             qdd = graph.addEquation('int_qdd', qdd_star + Gamma_sym*gamma_sol)
+            for j in joints:
+                self.bodyAcceleration(graph, j.body, j.body._a + j.body._a_gamma*gamma_sol)
 
             # in case of loops, extract only the independent qdd
             if (len(self.w) > 0):
@@ -1089,6 +1091,16 @@ class Generator_OrderN(Generator):
 
 
 
+    def bodyAcceleration(self, graph, body, a):
+        '''
+        Angular and Translational Acceleration of a Body, a contains -g
+        '''
+
+        a = graph.addEquation('int_acc_%s'%body.name, a)
+        graph.addEquation(body.K_al, a[0:3])
+        graph.addEquation(body.I_a, body.I_R*a[3:6] + self.g)
+
+
     def accConstraint(self, graph, n):
         '''
         Obtain G and Gdqd of constraints on acceleration level,
-- 
2.43.0


From 66e4991b880be6993de6529d13942bec661e6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:05 +0000
Subject: [PATCH 040/126] fix: explicit generator: without loads a single
 coordinate has a scalar force

---
 pymbs/processing/generator_explicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 5864db6..656588f 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -311,7 +311,7 @@ class Generator_Explicit(Generator):
             f_gravity_ = graph.addEquation('f_gravity_', scalar_if_possible(f_red))
 
         if (f_ext==0):
-            f_ext = Matrix( f_gravity_.shape() )
+            f_ext = zeros( f_gravity_.shape() )
 
         f_ext_ = graph.addEquation('f_ext_', scalar_if_possible(f_ext))
         f_ = graph.addEquation('f_', f_gravity_+f_ext_)
-- 
2.43.0


From fb402ddb6dfe7f36c22553bc35f6c8ea9931b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:56 +0000
Subject: [PATCH 041/126] fix: the energy sensor works for bodies connected by
 fixed joints

---
 pymbs/input/transformation.py             | 13 ++++++--
 pymbs/processing/generator_order_n.py     |  2 --
 pymbs/processing/generator_recursive.py   |  1 -
 pymbs/processing/sensors/energy_sensor.py | 40 ++++++++++++++---------
 4 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index d3d859f..456089b 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -65,6 +65,7 @@ _loads=None
 _sensors=None
 _inputs=None
 _jointRangeDict=None
+_massProperties=None
 
 # hack!!
 # motivation: avoid importing MbsSystem in this module (due to circular imports)
@@ -99,6 +100,7 @@ def _transformModel(model):
     global _loads
     global _inputs
     global _jointRangeDict
+    global _massProperties
 
 
     # initialize the global containiners
@@ -117,6 +119,9 @@ def _transformModel(model):
 
     bodies = [model]+list(model.bodyDict.values())
 
+    # Remember the Mass Properties of each Body
+    _massProperties = dict((b, (b.mass, b.cg, b.inertia)) for b in model.bodyDict.values())
+
     # Flatten CS Structure
     for i_body in bodies:
         flattenCSStructure(i_body)
@@ -443,11 +448,13 @@ def convertSensors(sensorList):
     # process energy sensors
     for eS in energySensorList:
         name = eS.name
-        newBody = eS.body.referenceToNew;
-        assert not newBody == None
+        # the frame of the body itself, its body may consist of several bodies
+        newFrame = eS.body._CS_0.referenceToNew
+        assert newFrame is not None
         symb = eS.symb
         cat = eS.category
-        newSensor = pSensors.EnergySensor(name, newBody, symb, _gravity, cat)
+        mass, cg, inertia = _massProperties[eS.body]
+        newSensor = pSensors.EnergySensor(name, newFrame, symb, _gravity, mass, cg, inertia, cat)
         newSensorList.append(newSensor)
 
 
diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index af9dcf4..ad8bfe4 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -216,7 +216,6 @@ class Generator_OrderN(Generator):
                 body._l = graph.addEquation(l%bName, body.cg, shape=(3,))
                 body._l_tilde = graph.addEquation(l_tilde%bName, skew(body._l), shape=(3,3))
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
-                body._inertia_cg = body.inertia
                 body.inertia = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
 
                 # Position
@@ -284,7 +283,6 @@ class Generator_OrderN(Generator):
                 body._l = graph.addEquation(l%bName, body.cg, shape=(3,))
                 body._l_tilde = graph.addEquation(l_tilde%bName, skew(body._l), shape=(3,3))
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
-                body._inertia_cg = body.inertia
                 body.inertia = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
 
                 # Position
diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 96ad841..1111624 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -129,7 +129,6 @@ class Generator_Recursive(Generator):
                 # Mass and Inertia
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
                 I_loc_b = graph.addEquation(I_LOC%bName, body.inertia, shape=(3,3))
-                body._inertia_cg = I_loc_b
                 # update body.inertia (reference to this variable)
                 body.inertia = graph.addEquation(I%bName, body.I_R * I_loc_b * transpose(body.I_R), shape=(3,3))
 
diff --git a/pymbs/processing/sensors/energy_sensor.py b/pymbs/processing/sensors/energy_sensor.py
index af003fc..54af577 100644
--- a/pymbs/processing/sensors/energy_sensor.py
+++ b/pymbs/processing/sensors/energy_sensor.py
@@ -1,6 +1,6 @@
-from pymbs.processing import Body
+from pymbs.processing.frame import Frame
 from pymbs.processing.sensors.sensor import Sensor
-from pymbs.common.functions import transpose
+from pymbs.common.functions import transpose, skew
 
 import pymbs.symbolics as sym
 
@@ -10,17 +10,24 @@ class EnergySensor(Sensor):
     Obtain the potential and kinetic energy of a body
     '''
 
-    def __init__(self, name, body, symbol, gravity, category=sym.VarKind.Sensor):
+    def __init__(self, name, frame, symbol, gravity, mass, cg, inertia, category=sym.VarKind.Sensor):
         '''
         Constructor
+
+        frame: Frame of the body, which may be a part of a body that consists of
+               several bodies connected by fixed joints
+        mass, cg, inertia: Properties of the body w.r.t. this frame (inertia about cg)
         '''
 
-        assert( isinstance(body, Body) )
+        assert( isinstance(frame, Frame) )
 
         # Call Constructor of Super Class
-        Sensor.__init__(self, name, body.CS_0, body.CS_0, symbol, None, category)
+        Sensor.__init__(self, name, frame, frame, symbol, None, category)
         self.gravity = gravity
-        self.body = body
+        self.frame = frame
+        self.mass = mass
+        self.cg = cg
+        self.inertia = inertia
 
     def calc(self, graph):
         '''
@@ -28,20 +35,21 @@ class EnergySensor(Sensor):
         '''
         assert( graph is not None )
 
-        # get mass and Inertia of body (about the centre of gravity, w.r.t. the body frame)
-        # generators may have replaced body.inertia by the inertia they need
-        m = self.body.mass
-        I = getattr(self.body, '_inertia_cg', self.body.inertia)
+        # position and velocity of the centre of gravity
+        frame = self.frame
+        assert frame.I_r is not None, 'Position of Frame "%s" has not been calculated!'%frame
+        assert frame.I_v is not None, 'Velocity of Frame "%s" has not been calculated!'%frame
+        l = frame.I_R*self.cg
+        r = frame.I_r + l
+        v = frame.I_v + skew(frame.I_om)*l
 
         # get potential Energy
-        assert self.body.I_l is not None, 'Position of Body "%s" has not been calculated!'%self.body
-        E_pot = -m*transpose(self.gravity)*self.body.I_l
+        E_pot = -self.mass*transpose(self.gravity)*r
 
         # get kinetic energy
-        assert self.body.I_ldot is not None, 'Velocity of Body "%s" has not been calculated!'%self.body
-        om = transpose(self.body.I_R)*self.body.I_om
-        E_kin = 0.5*m*transpose(self.body.I_ldot)*self.body.I_ldot + \
-                0.5*transpose(om)*I*om
+        om = transpose(frame.I_R)*frame.I_om
+        E_kin = 0.5*self.mass*transpose(v)*v + \
+                0.5*transpose(om)*self.inertia*om
 
         # Total Energy
         E = E_pot + E_kin
-- 
2.43.0


From 4917de8311c3ec2b711042aa12ff5f2fa36815ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:56 +0000
Subject: [PATCH 042/126] fix: bodies connected by fixed joints get the right
 position, centre of gravity and inertia

---
 pymbs/input/transformation.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index 456089b..9547424 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -665,11 +665,8 @@ def redefineCS(cs, body, p, R):
     # still point to the old coordinate system
     cs.parent = body
 
-    # change cg if it is a body (which was connected to a fixed joint)
-    # TODO: Check that
-    if (cs.__class__ is iBody):
-        cs.cg = R*cs.cg + cs.p
-        cs.inertia = transpose(R)*cs.inertia*R
+    # cg and inertia of a body (which was connected to a fixed joint) stay
+    # w.r.t. to its own frame, they are transformed by applyFixedJoints
 
 
 def updateChildCS(new_Body, p_bif, R_bif):
@@ -711,8 +708,8 @@ def applyFixedJoints(iBody, stage):
 
 
                 # 4. Update Information of Child and Child's Body
-                body.p = -child.p
                 body.R = transpose(child.R)
+                body.p = body.R*(-child.p)
                 body.children.remove(child)
                 body.coordList.remove(child)
                 body.oldName = body.name
@@ -741,11 +738,24 @@ def applyFixedJoints(iBody, stage):
                 # Remove Child Body from List
                 del iBody.bodyDict[child.oldName]
 
+                # The world does not move, its mass is not of interest
+                if (parent is iBody):
+                    continue
+
+                # Centre of Gravity and Inertia of Child w.r.t. Parent
+                child_cg = child.p + child.R*child.cg
+                child_inertia = child.R*child.inertia*transpose(child.R)
+
                 # Calculate new Properties of Combined Body
-                m = parent.mass + child.mass;
-                cg = (parent.mass*parent.cg + child.mass*child.cg) / m;
-                # Inertia
-                inertia = parent.inertia + child.inertia + child.mass*transpose(skew(child.cg))*skew(child.cg)
+                m = parent.mass + child.mass
+                if (m == 0):
+                    cg = parent.cg
+                else:
+                    cg = (parent.mass*parent.cg + child.mass*child_cg) / m
+                # Inertia w.r.t. the common Centre of Gravity
+                inertia = parent.inertia + child_inertia
+                for mass, d in ((parent.mass, parent.cg - cg), (child.mass, child_cg - cg)):
+                    inertia = inertia + mass*transpose(skew(d))*skew(d)
 
                 # save new values
                 parent.mass = m
-- 
2.43.0


From a70add9f13fb238a6f2caf05c9ecbf62fbc9346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:57 +0000
Subject: [PATCH 043/126] fix: four bar linkages whose joints are displaced
 along the axis close

---
 pymbs/processing/loops/fourbar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/loops/fourbar.py b/pymbs/processing/loops/fourbar.py
index 62b58d3..f9f0692 100644
--- a/pymbs/processing/loops/fourbar.py
+++ b/pymbs/processing/loops/fourbar.py
@@ -176,22 +176,22 @@ class FourBar(Loop):
         # Length of bars and angle between x-axis and bar
         l1_vec = self.jD.coordSys.p - self.jA.coordSys.p
         l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec)*l1_vec)))
+        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec2)*l1_vec2)))
         alpha = graph.addEquation(AL%self.name, s*atan2(l1_vec2[1],l1_vec2[0]))
 
         l2_vec = self.jB.coordSys.p
         l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec)*l2_vec)))
+        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec2)*l2_vec2)))
         beta = graph.addEquation(BE%self.name, s*atan2(l2_vec2[1],l2_vec2[0]))
 
         l3_vec = self.csC3.p
         l3_vec2 = self.pick*l3_vec
-        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec)*l3_vec)))
+        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec2)*l3_vec2)))
         gamma = graph.addEquation(GA%self.name, s*atan2(l3_vec2[1],l3_vec2[0]))
 
         l4_vec = self.csC4.p
         l4_vec2 = self.pick*l4_vec
-        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec)*l4_vec)))
+        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec2)*l4_vec2)))
         delta = graph.addEquation(DE%self.name, s*atan2(l4_vec2[1],l4_vec2[0]))
 
         # angle between bars
-- 
2.43.0


From c13ab8060adca79bdc270b2fd4f495ce096b689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:57 +0000
Subject: [PATCH 044/126] fix: crank slider accepts its frames in either order
 and lengths given as numbers

---
 pymbs/processing/loops/crank_slider.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index 1ff23e6..fd41137 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -61,7 +61,7 @@ class CrankSlider(Loop):
         if j2.coordSys.parentBody.joint is None:
             j1 = csBb.parentBody.joint
             j2 = csBa.parentBody.joint
-            j3 = j1.coordSys.parentBody.joint
+            j3 = j2.coordSys.parentBody.joint
             csB1 = csBb
             csB2 = csBa
         else:
@@ -221,11 +221,11 @@ class CrankSlider(Loop):
         # Length of bars
         l1_vec = self.csB1.p
         l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1 % self.name, sqrt((transpose(l1_vec2)*l1_vec2)[0]))
+        l1 = graph.addEquation(L1 % self.name, sqrt(transpose(l1_vec2)*l1_vec2))
 
         l2_vec = self.csB2.p
         l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2 % self.name, sqrt((transpose(l2_vec2)*l2_vec2)[0]))
+        l2 = graph.addEquation(L2 % self.name, sqrt(transpose(l2_vec2)*l2_vec2))
 
         # Calculate v
         alpha = graph.addEquation(AL % self.name, asin((l1/l2)*sin(q1)))
-- 
2.43.0


From 9b73452dd12e588e12506c4e13364fb05b1f8e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:57 +0000
Subject: [PATCH 045/126] fix: velocity and acceleration of the slider in a
 crank slider mechanism

---
 pymbs/processing/loops/crank_slider.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index fd41137..22c222d 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -233,11 +233,9 @@ class CrankSlider(Loop):
         v1 = alpha                  # q3
         v0 = l1*cos(q1)-l2*cos(q3)  # q2
 
-        alphad = q3d
+        Bvu = Matrix([[-l1*sin(q1-alpha)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
 
-        Bvu = Matrix([[-l1*sin(alpha+q1)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
-
-        b_prime = Matrix([-l1*q1d*(2*alphad*cos(q1)+q1d*cos(q1)+q1d*cos(2*alpha+q1))/(2*cos(alpha)*cos(alpha)),
-                          (-l1*q1d*q1d*cos(alpha)*sin(q1)+l1*alphad*q1d*cos(q1)*sin(alpha))/(l2*cos(alpha)*cos(alpha))])
+        b_prime = Matrix([(l2*q3d*q3d-l1*q1d*q1d*cos(q1-alpha))/cos(alpha),
+                          (l2*q3d*q3d*sin(alpha)-l1*q1d*q1d*sin(q1))/(l2*cos(alpha))])
 
         return ([v0, v1], Bvu, b_prime)
-- 
2.43.0


From 8a2ae4fe83479606aa32dee530b96f802146e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:41 +0000
Subject: [PATCH 046/126] fix: crank slider closes for bars in any direction
 and a slide beside the crank

---
 pymbs/processing/loops/crank_slider.py | 30 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index 22c222d..1ac46f5 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -6,9 +6,13 @@ from pymbs.processing.loops.loop import Loop, eps
 from pymbs.common.functions import sqrt
 from pymbs.processing import Frame
 
-from pymbs.symbolics import Matrix, eye, cos, sin, asin, zeros, transpose
+from pymbs.symbolics import Matrix, eye, cos, sin, asin, atan2, zeros, transpose
 
 AL = 'FB_%s_AL'
+BE = 'FB_%s_BE'
+GA = 'FB_%s_GA'
+
+PHI = 'FB_%s_PHI'
 L1 = 'FB_%s_L1'
 L2 = 'FB_%s_L2'
 
@@ -218,24 +222,34 @@ class CrankSlider(Loop):
         q3 = self.j2.q     # v[1]    # angle
         q3d = self.j2.qd
 
-        # Length of bars
+        # Direction of the slide, position of the slide and of the rod on it
+        t = self.pick*self.j3.Psi
+        tau = self.sign*atan2(t[1], t[0])
+        d = self.pick*(self.j3.coordSys.p + self.j2.coordSys.p)
+        d_par = t[0]*d[0] + t[1]*d[1]
+        d_perp = self.sign*(t[0]*d[1] - t[1]*d[0])
+
+        # Length of bars and angle between slide and bar
         l1_vec = self.csB1.p
         l1_vec2 = self.pick*l1_vec
         l1 = graph.addEquation(L1 % self.name, sqrt(transpose(l1_vec2)*l1_vec2))
+        beta = graph.addEquation(BE % self.name, self.sign*atan2(l1_vec2[1], l1_vec2[0]) - tau)
 
         l2_vec = self.csB2.p
         l2_vec2 = self.pick*l2_vec
         l2 = graph.addEquation(L2 % self.name, sqrt(transpose(l2_vec2)*l2_vec2))
+        gamma = graph.addEquation(GA % self.name, self.sign*atan2(l2_vec2[1], l2_vec2[0]) - tau)
 
         # Calculate v
-        alpha = graph.addEquation(AL % self.name, asin((l1/l2)*sin(q1)))
+        phi = graph.addEquation(PHI % self.name, q1 + beta)
+        alpha = graph.addEquation(AL % self.name, asin((l1*sin(phi)-d_perp)/l2))
 
-        v1 = alpha                  # q3
-        v0 = l1*cos(q1)-l2*cos(q3)  # q2
+        v1 = alpha - gamma                          # q3
+        v0 = l1*cos(phi)-l2*cos(alpha)-d_par        # q2
 
-        Bvu = Matrix([[-l1*sin(q1-alpha)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
+        Bvu = Matrix([[-l1*sin(phi-alpha)/cos(alpha)], [l1*cos(phi)/(l2*cos(alpha))]])
 
-        b_prime = Matrix([(l2*q3d*q3d-l1*q1d*q1d*cos(q1-alpha))/cos(alpha),
-                          (l2*q3d*q3d*sin(alpha)-l1*q1d*q1d*sin(q1))/(l2*cos(alpha))])
+        b_prime = Matrix([(l2*q3d*q3d-l1*q1d*q1d*cos(phi-alpha))/cos(alpha),
+                          (l2*q3d*q3d*sin(alpha)-l1*q1d*q1d*sin(phi))/(l2*cos(alpha))])
 
         return ([v0, v1], Bvu, b_prime)
-- 
2.43.0


From ef476e9801098c72d3d40ead53249abbdad2347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 047/126] fix: O(n) generator with a kinematic loop does not
 define the dependent accelerations twice

---
 pymbs/processing/generator_order_n.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index ad8bfe4..cfaef06 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -1056,12 +1056,10 @@ class Generator_OrderN(Generator):
 
             # in case of loops, extract only the independent qdd
             if (len(self.w) > 0):
-                # save all joint-accelerations
-                graph.addEquation(j_qdd, qdd)
-
-                # Take only the "interesting" accelerations
-                m_j_qdd = Matrix(j_qdd)
-                qdd = jacobian(self.qdd, m_j_qdd)*m_j_qdd
+                # Take only the "interesting" accelerations, the dependent
+                # ones are calculated from these (see handleLoops)
+                qdd = jacobian(self.qdd, Matrix(j_qdd))*qdd
+                graph.addEquation(self.state.qdd, scalar_if_possible(qdd))
         else:
             # add the flexible accelerations to qdd list
             for joint in joints:
-- 
2.43.0


From c6d3ee03aef10317e7f1b40017637cce5271dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:08 +0000
Subject: [PATCH 048/126] fix: velocity and acceleration of the first rotation
 of a hexapod leg

---
 pymbs/processing/loops/hexapod.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymbs/processing/loops/hexapod.py b/pymbs/processing/loops/hexapod.py
index 6aad9c8..4773a71 100644
--- a/pymbs/processing/loops/hexapod.py
+++ b/pymbs/processing/loops/hexapod.py
@@ -232,6 +232,12 @@ class Hexapod(Loop):
         tpz = self.csC4.p[2]
 
 
+        # the derivatives are given for a first rotation which counts in the
+        # opposite direction
+        v1 = -Alpha_Zyl
+        v1d = -self.vd[1]
+        sgn = Matrix([[1, 0, 0], [0, -1, 0], [0, 0, 1]])
+
         # and calculate Bvu and b_prime respectively
         Bvu = Matrix([
         [      cos(v1)*cos(v2),    sin(v2),      sin(v1)*cos(v2),       tpx*sin(u3)*sin(u4)*sin(v1)*cos(u5)*cos(v2) - tpx*sin(u3)*sin(u5)*sin(v2) + tpx*sin(u4)*sin(v2)*cos(u3)*cos(u5) + tpx*sin(u5)*sin(v1)*cos(u3)*cos(v2) - tpy*sin(u3)*sin(u4)*sin(u5)*sin(v1)*cos(v2) - tpy*sin(u3)*sin(v2)*cos(u5) - tpy*sin(u4)*sin(u5)*sin(v2)*cos(u3) + tpy*sin(v1)*cos(u3)*cos(u5)*cos(v2) - tpz*sin(u3)*sin(v1)*cos(u4)*cos(v2) - tpz*sin(v2)*cos(u3)*cos(u4),        tpx*sin(u3)*sin(v2)*cos(u4)*cos(u5) - tpx*sin(u4)*cos(u5)*cos(v1)*cos(v2) - tpx*sin(v1)*cos(u3)*cos(u4)*cos(u5)*cos(v2) - tpy*sin(u3)*sin(u5)*sin(v2)*cos(u4) + tpy*sin(u4)*sin(u5)*cos(v1)*cos(v2) + tpy*sin(u5)*sin(v1)*cos(u3)*cos(u4)*cos(v2) + tpz*sin(u3)*sin(u4)*sin(v2) - tpz*sin(u4)*sin(v1)*cos(u3)*cos(v2) + tpz*cos(u4)*cos(v1)*cos(v2),      -tpx*sin(u3)*sin(u4)*sin(u5)*sin(v2) + tpx*sin(u3)*sin(v1)*cos(u5)*cos(v2) + tpx*sin(u4)*sin(u5)*sin(v1)*cos(u3)*cos(v2) - tpx*sin(u5)*cos(u4)*cos(v1)*cos(v2) + tpx*sin(v2)*cos(u3)*cos(u5) - tpy*sin(u3)*sin(u4)*sin(v2)*cos(u5) - tpy*sin(u3)*sin(u5)*sin(v1)*cos(v2) + tpy*sin(u4)*sin(v1)*cos(u3)*cos(u5)*cos(v2) - tpy*sin(u5)*sin(v2)*cos(u3) - tpy*cos(u4)*cos(u5)*cos(v1)*cos(v2)],
@@ -244,4 +250,4 @@ class Hexapod(Loop):
         (-tpx*u3d**2*sin(u3)*sin(u5)*cos(v1) + tpx*u3d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + 2*tpx*u3d*u4d*sin(u3)*cos(u4)*cos(u5)*cos(v1) - 2*tpx*u3d*u5d*sin(u3)*sin(u4)*sin(u5)*cos(v1) + 2*tpx*u3d*u5d*cos(u3)*cos(u5)*cos(v1) + tpx*u4d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpx*u4d**2*sin(v1)*cos(u4)*cos(u5) - 2*tpx*u4d*u5d*sin(u4)*sin(u5)*sin(v1) + 2*tpx*u4d*u5d*sin(u5)*cos(u3)*cos(u4)*cos(v1) - tpx*u5d**2*sin(u3)*sin(u5)*cos(v1) + tpx*u5d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpx*u5d**2*sin(v1)*cos(u4)*cos(u5) - tpy*u3d**2*sin(u3)*cos(u5)*cos(v1) - tpy*u3d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - 2*tpy*u3d*u4d*sin(u3)*sin(u5)*cos(u4)*cos(v1) - 2*tpy*u3d*u5d*sin(u3)*sin(u4)*cos(u5)*cos(v1) - 2*tpy*u3d*u5d*sin(u5)*cos(u3)*cos(v1) - tpy*u4d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - tpy*u4d**2*sin(u5)*sin(v1)*cos(u4) - 2*tpy*u4d*u5d*sin(u4)*sin(v1)*cos(u5) + 2*tpy*u4d*u5d*cos(u3)*cos(u4)*cos(u5)*cos(v1) - tpy*u5d**2*sin(u3)*cos(u5)*cos(v1) - tpy*u5d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - tpy*u5d**2*sin(u5)*sin(v1)*cos(u4) - tpz*u3d**2*cos(u3)*cos(u4)*cos(v1) + 2*tpz*u3d*u4d*sin(u3)*sin(u4)*cos(v1) + tpz*u4d**2*sin(u4)*sin(v1) - tpz*u4d**2*cos(u3)*cos(u4)*cos(v1) + 2*v0*v1d*v2d*sin(v2) - 2*v0d*v1d*cos(v2))/(v0*cos(v2)),
         -(tpx*u3d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) - tpx*u3d**2*sin(u3)*sin(u5)*sin(v1)*sin(v2) + tpx*u3d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u3d**2*sin(u5)*cos(u3)*cos(v2) + 2*tpx*u3d*u4d*sin(u3)*sin(v1)*sin(v2)*cos(u4)*cos(u5) - 2*tpx*u3d*u4d*cos(u3)*cos(u4)*cos(u5)*cos(v2) - 2*tpx*u3d*u5d*sin(u3)*sin(u4)*sin(u5)*sin(v1)*sin(v2) + 2*tpx*u3d*u5d*sin(u3)*cos(u5)*cos(v2) + 2*tpx*u3d*u5d*sin(u4)*sin(u5)*cos(u3)*cos(v2) + 2*tpx*u3d*u5d*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u4d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) + tpx*u4d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) - tpx*u4d**2*sin(v2)*cos(u4)*cos(u5)*cos(v1) + 2*tpx*u4d*u5d*sin(u3)*sin(u5)*cos(u4)*cos(v2) + 2*tpx*u4d*u5d*sin(u4)*sin(u5)*sin(v2)*cos(v1) + 2*tpx*u4d*u5d*sin(u5)*sin(v1)*sin(v2)*cos(u3)*cos(u4) + tpx*u5d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) - tpx*u5d**2*sin(u3)*sin(u5)*sin(v1)*sin(v2) + tpx*u5d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u5d**2*sin(u5)*cos(u3)*cos(v2) - tpx*u5d**2*sin(v2)*cos(u4)*cos(u5)*cos(v1) - tpy*u3d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u3d**2*sin(u3)*sin(v1)*sin(v2)*cos(u5) - tpy*u3d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u3d**2*cos(u3)*cos(u5)*cos(v2) - 2*tpy*u3d*u4d*sin(u3)*sin(u5)*sin(v1)*sin(v2)*cos(u4) + 2*tpy*u3d*u4d*sin(u5)*cos(u3)*cos(u4)*cos(v2) - 2*tpy*u3d*u5d*sin(u3)*sin(u4)*sin(v1)*sin(v2)*cos(u5) - 2*tpy*u3d*u5d*sin(u3)*sin(u5)*cos(v2) + 2*tpy*u3d*u5d*sin(u4)*cos(u3)*cos(u5)*cos(v2) - 2*tpy*u3d*u5d*sin(u5)*sin(v1)*sin(v2)*cos(u3) - tpy*u4d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u4d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u4d**2*sin(u5)*sin(v2)*cos(u4)*cos(v1) + 2*tpy*u4d*u5d*sin(u3)*cos(u4)*cos(u5)*cos(v2) + 2*tpy*u4d*u5d*sin(u4)*sin(v2)*cos(u5)*cos(v1) + 2*tpy*u4d*u5d*sin(v1)*sin(v2)*cos(u3)*cos(u4)*cos(u5) - tpy*u5d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u5d**2*sin(u3)*sin(v1)*sin(v2)*cos(u5) - tpy*u5d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u5d**2*sin(u5)*sin(v2)*cos(u4)*cos(v1) + tpy*u5d**2*cos(u3)*cos(u5)*cos(v2) - tpz*u3d**2*sin(u3)*cos(u4)*cos(v2) - tpz*u3d**2*sin(v1)*sin(v2)*cos(u3)*cos(u4) + 2*tpz*u3d*u4d*sin(u3)*sin(u4)*sin(v1)*sin(v2) - 2*tpz*u3d*u4d*sin(u4)*cos(u3)*cos(v2) - tpz*u4d**2*sin(u3)*cos(u4)*cos(v2) - tpz*u4d**2*sin(u4)*sin(v2)*cos(v1) - tpz*u4d**2*sin(v1)*sin(v2)*cos(u3)*cos(u4) + v0*v1d**2*sin(v2)*cos(v2) - 2*v0d*v2d*sin(v1)**2*cos(v2)**2 + 2*v0d*v2d*sin(v1)**2 - 2*v0d*v2d*cos(v1)**2*cos(v2)**2 + 2*v0d*v2d*cos(v1)**2 + 2*v0d*v2d*cos(v2)**2)/v0,        ])
 
-        return ([v0,v1,v2],Bvu,b_prime)
\ No newline at end of file
+        return ([v0,Alpha_Zyl,v2],sgn*Bvu,sgn*b_prime)
\ No newline at end of file
-- 
2.43.0


From dad7dbeacedb763dcdce9790029bcb1c96e8c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 049/126] fix: O(n) generator with a four bar linkage whose
 frames in the cut are rotated or displaced along the axis

---
 pymbs/processing/loops/fourbar.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pymbs/processing/loops/fourbar.py b/pymbs/processing/loops/fourbar.py
index f9f0692..8039b1d 100644
--- a/pymbs/processing/loops/fourbar.py
+++ b/pymbs/processing/loops/fourbar.py
@@ -233,8 +233,17 @@ class FourBar(Loop):
             if (self.jA.Phi[i] == 0):
                 transLock[i] = 1
 
+        # the forces act along the axes of the body in a single point, no matter
+        # how the frames are oriented or displaced along the axis of rotation
+        parent = self.csC3
+        d = self.jD.coordSys.p + self.csC4.p \
+            - (self.jA.coordSys.p + self.jB.coordSys.p + self.csC3.p)
+        d = Matrix([d[i]*self.jA.Phi[i] for i in [0,1,2]])
+        if not ((parent.R == eye(3)) and (d == zeros((3,)))):
+            parent = parent.parentBody.addFrame('cut_%s'%self.name, p=parent.p+d)
+
         # apply Constraint
-        c = Constraint(name='Constraint_%s'%self.name, parent=self.csC3, child=self.csC4, \
+        c = Constraint(name='Constraint_%s'%self.name, parent=parent, child=self.csC4, \
                        transLock=transLock, rotLock=[0,0,0], active=False)
 
         # return load object
-- 
2.43.0


From 54f7e10d643ece76f5a341a304e327dbebfcd338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 050/126] fix: loops with two collinear bars do not divide by
 zero

---
 pymbs/processing/loops/fourbar.py        | 2 +-
 pymbs/processing/loops/fourbar_trans.py  | 2 +-
 pymbs/processing/loops/threebar_trans.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/loops/fourbar.py b/pymbs/processing/loops/fourbar.py
index 8039b1d..ee5f675 100644
--- a/pymbs/processing/loops/fourbar.py
+++ b/pymbs/processing/loops/fourbar.py
@@ -209,7 +209,7 @@ class FourBar(Loop):
 
         # Calculate v
         theta_prime = graph.addEquation(THETA%self.name, 2*atan((P5-self.posture*sqrt(P4**2+P5**2-P6**2))/(P4-P6)))
-        psi_prime = graph.addEquation(PSI%self.name, ((l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime))/abs(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime)))*acos((l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1)/l4))
+        psi_prime = graph.addEquation(PSI%self.name, atan2(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime), l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1))
 
         v1 = (psi_prime + alpha - delta)
         v0 = (theta_prime + beta - gamma)
diff --git a/pymbs/processing/loops/fourbar_trans.py b/pymbs/processing/loops/fourbar_trans.py
index e9f322b..505a0ff 100644
--- a/pymbs/processing/loops/fourbar_trans.py
+++ b/pymbs/processing/loops/fourbar_trans.py
@@ -232,7 +232,7 @@ class FourBarTrans(Loop):
         P2 = graph.addEquation(B%self.name, -2*l2*l4*sin(phi_prime))
         P3 = graph.addEquation(C%self.name, l1**2+l2**2-l3**2+l4**2-2*l1*l2*cos(phi_prime))
 
-        psi_prime = graph.addEquation(PSI%self.name, ((l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime))/abs(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime)))*acos((l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1)/l4))
+        psi_prime = graph.addEquation(PSI%self.name, atan2(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime), l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1))
 
         v1 = (psi_prime + alpha - delta)
         v0 = (l4)
diff --git a/pymbs/processing/loops/threebar_trans.py b/pymbs/processing/loops/threebar_trans.py
index 9271fc4..6ad0683 100644
--- a/pymbs/processing/loops/threebar_trans.py
+++ b/pymbs/processing/loops/threebar_trans.py
@@ -207,7 +207,7 @@ class ThreeBarTrans(Loop):
 
         # Calculate v
         l3 = graph.addEquation(L3%self.name, sqrt(l1**2+l2**2-2*l1*l2*cos(phi_prime)))
-        psi_prime = graph.addEquation(PSI%self.name, pi-sin(phi_prime)/abs(sin(phi_prime))*acos((l1**2+l3**2-l2**2)/(2*l1*l3)))
+        psi_prime = graph.addEquation(PSI%self.name, pi+atan2(-l2*sin(phi_prime), l1-l2*cos(phi_prime)))
 
 
         # TODO: qsi_prime, psi
-- 
2.43.0


From 787b49bb2e3559ee97b2267721b2a1ae4415ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 051/126] fix: generated code reads and returns every state at
 its own place in the state vector

---
 symbolics/writer/CSharpWriter.cpp  | 19 +++++++++-----
 symbolics/writer/CWriter.cpp       | 22 +++++++++++-----
 symbolics/writer/FortranWriter.cpp | 40 +++++++++++++++++-------------
 symbolics/writer/MatlabWriter.cpp  | 12 ++++++---
 symbolics/writer/PythonWriter.cpp  | 24 +++++++++++-------
 symbolics/writer/Writer.cpp        | 21 ++++++++++++++++
 symbolics/writer/include/Writer.h  |  4 +++
 7 files changed, 100 insertions(+), 42 deletions(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index 4ea02ac..f108c3a 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -106,13 +106,15 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
 	f << "{" << std::endl;
 
 	f << "    /* declare state variables */" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
-		dim = n;
+		size_t pos = positions[states.at(i)->getName()];
+		dim = pos + n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << pos+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -159,13 +161,14 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
     f << std::endl;
 
 	f << "    /* set return values */" << std::endl;
-	f << "    yd = new double[" << states.size() << "];" << std::endl;
+	f << "    yd = new double[" << dim << "];" << std::endl;
  	for (size_t i=0;i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t pos = positions[states.at(i)->getName()];
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << pos+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
@@ -263,12 +266,14 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
 	f << "    /* declare state variables */" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t pos = positions[states.at(i)->getName()];
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << pos+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -363,12 +368,14 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t pos = positions[states.at(i)->getName()];
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << pos+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 0007cc9..069a3d2 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -124,13 +124,15 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t pos = positions[states.at(i)->getName()];
 		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << pos+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -165,9 +167,10 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	for (size_t i=0;i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t pos = positions[states.at(i)->getName()];
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << pos+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
@@ -239,12 +242,14 @@ double CWriter::generateVisual(Graph::Graph& g)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t pos = positions[states.at(i)->getName()];
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << pos+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -338,12 +343,14 @@ double CWriter::generateSensors(Graph::Graph& g)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t pos = positions[states.at(i)->getName()];
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << pos+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -873,13 +880,15 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	f << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t pos = positions[states.at(i)->getName()];
 		dim = n;
 		f << "    const double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << pos+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -913,9 +922,10 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	for (size_t i=0;i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t pos = positions[states.at(i)->getName()];
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << pos+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index fe06b7b..b8d9997 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -97,12 +97,13 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	f << std::endl;
 
 	f << "!declare fixed variables" << std::endl;
-	int input_dim=0; 
+	size_t input_dim=0; 
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 		f << "    double precision"<< m_p->dimension(*it) << " :: der_" << m_p->print(*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
+		input_dim = std::max(input_dim, positions[(*it)->getName()] + (*it)->getShape().getDimension(1));
 	}
     f << "    double precision, intent(in) :: time" << std::endl;
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
@@ -141,15 +142,16 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	std::stringstream fss;
 
 	fss << "!define states" << std::endl;
-	Shape n = states.at(0)->getShape(); 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
+        Shape n = states.at(i)->getShape();
+        size_t pos = positions[states.at(i)->getName()];
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(pos + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(pos + 1) << ":" 
+			  << str(pos + n.getDimension(1)) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -237,11 +239,12 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!declare arguments and return variables" << std::endl;
     f << "    double precision, intent(in) :: time" << std::endl;
-	int input_dim=0; 
+	size_t input_dim=0; 
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
+		input_dim = std::max(input_dim, positions[(*it)->getName()] + (*it)->getShape().getDimension(1));
 	}
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
@@ -283,12 +286,13 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
         Shape n = states.at(i)->getShape();
+        size_t pos = positions[states.at(i)->getName()];
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(pos + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(pos + 1) << ":" 
+			  << str(pos + n.getDimension(1)) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -362,11 +366,12 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
 	f << "!declare arguments and return variables" << std::endl;
-	int input_dim=0; 
+	size_t input_dim=0; 
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
+		input_dim = std::max(input_dim, positions[(*it)->getName()] + (*it)->getShape().getDimension(1));
 	}
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
@@ -403,13 +408,14 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	fss << "!define states" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
-        Shape n = states.at(i)->getShape(); 
+        Shape n = states.at(i)->getShape();
+        size_t pos = positions[states.at(i)->getName()];
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(pos + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(pos + 1) << ":" 
+			  << str(pos + n.getDimension(1)) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 8c519ad..c19698d 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -175,11 +175,13 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 	f << "function yd = "<< m_name <<"_der_state(time, y)" << std::endl;
 
 	f << "% State" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
+		size_t pos = positions[states.at(i)->getName()];
 		f << "	" << m_p->print(states.at(i)) << " = y("
-		  << str(states.at(i)->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(states.at(i)->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(pos + 1) << ":" 
+		  << str(pos + states.at(i)->getShape().getDimension(1)) << ");" 
 		  << std::endl;
 	}
 	f << std::endl;
@@ -365,12 +367,14 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 	f << std::endl;
 	f << "% State" << std::endl;
 
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
+		size_t pos = positions[states.at(i)->getName()];
 		const Symbolics::BasicPtr s = states.at(i);
 		f << "	" << m_p->print(s) << " = y("
-		  << str(s->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(s->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(pos + 1) << ":" 
+		  << str(pos + s->getShape().getDimension(1)) << ");" 
 		  << std::endl;
 	}
 
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 44facdc..cd566b8 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -139,15 +139,17 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 
 	// extract state from argument
 	f << "    # state" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		Shape n = states.at(i)->getShape();
+		size_t pos = positions[states.at(i)->getName()];
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(pos) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(pos) << ":"
+			  << str(pos + n.getDimension(1)) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
@@ -285,15 +287,17 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 
 	// extract state from argument
 	f << "    # state" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		Shape n = states.at(i)->getShape();
+		size_t pos = positions[states.at(i)->getName()];
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(pos) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(pos) << ":"
+			  << str(pos + n.getDimension(1)) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
@@ -415,15 +419,17 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 
 	// extract state from argument
 	f << "    # state" << std::endl;
+	std::map<std::string, size_t> positions = statePositions(g);
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		Shape n = states.at(i)->getShape();
+		size_t pos = positions[states.at(i)->getName()];
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(pos) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(pos) << ":"
+			  << str(pos + n.getDimension(1)) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index bc212b5..69f12f4 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -1,5 +1,6 @@
 #include "Writer.h"
 #include "str.h"
+#include <algorithm>
 
 #ifdef WIN32
   #include <time.h>
@@ -73,3 +74,23 @@ bool Writer::sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::
 	return (*(a.get()) < *(b.get())); 
 }
 /*****************************************************************************/
+
+
+/*****************************************************************************/
+std::map<std::string, size_t> Writer::statePositions(Graph::Graph& g)
+/*****************************************************************************/
+{
+    Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+    std::sort(states.begin(), states.end(), sortVariableVec);
+
+    std::map<std::string, size_t> positions;
+    size_t position = 0;
+    for (Graph::VariableVec::iterator it=states.begin();it!=states.end();++it)
+    {
+        positions[(*it)->getName()] = position;
+        position += (*it)->getShape().getNumEl();
+    }
+    return positions;
+}
+/*****************************************************************************/
+
diff --git a/symbolics/writer/include/Writer.h b/symbolics/writer/include/Writer.h
index 3766aaa..158ee8c 100644
--- a/symbolics/writer/include/Writer.h
+++ b/symbolics/writer/include/Writer.h
@@ -3,6 +3,7 @@
 
 #include <string>
 #include <vector>
+#include <map>
 #include "Symbolics.h"
 #include "Graph.h"
 
@@ -38,6 +39,9 @@ namespace Symbolics
 		// Die Funktion muss static sein, da sie als functionpointer verwendet wird
 		static bool sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::intrusive_ptr<Symbolics::Symbol> b);
 
+		// Index of the first element of each state in the state vector, which contains all states of the system
+		static std::map<std::string, size_t> statePositions(Graph::Graph& g);
+
     public:
         double generateTarget(std::string name, std::string path, Graph::Graph& g, bool optimize);
 
-- 
2.43.0


From c117890fa5a151ccb088946f822537bae029cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 052/126] fix: constants in generated Python code are indented
 like the code around them

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index cd566b8..e1d0646 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -184,7 +184,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -314,7 +314,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -446,7 +446,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From aa19cb48944e95d964a256d409b9d08a5371f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 053/126] fix: generated Python code imports tan

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index e1d0646..6b18062 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -93,7 +93,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << std::endl << std::endl;
 
 	//f << "from numba import njit" << std::endl;
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -253,7 +253,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -385,7 +385,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
-- 
2.43.0


From 7a5c38e4ae117ba03bc59ac14194746405685d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 054/126] fix: generated Python code can raise the sign of a
 number to a negative power

---
 symbolics/printer/PythonPrinter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symbolics/printer/PythonPrinter.cpp b/symbolics/printer/PythonPrinter.cpp
index 2d4edf5..e802e03 100644
--- a/symbolics/printer/PythonPrinter.cpp
+++ b/symbolics/printer/PythonPrinter.cpp
@@ -46,7 +46,13 @@ std::string PythonPrinter::print_Pow( const Pow *pow )
 /*****************************************************************************/
 {
     if (pow == NULL) throw InternalError("PythonPrinter: Pow is NULL");
-		return "(" + print(pow->getBase()) + "**" + print(pow->getExponent()) + ")";
+    BasicPtr e = pow->getExponent();
+    bool isPositive = (e->getType() == Type_Real)
+                   || (e->getType() == Type_Int && Util::getAsConstPtr<Int>(e)->getValue() >= 0);
+    // numpy does not raise its integers (e.g. the sign of a number) to a negative power
+    if (pow->is_Scalar() && !isPositive)
+        return "((1.0*" + print(pow->getBase()) + ")**" + print(e) + ")";
+    return "(" + print(pow->getBase()) + "**" + print(e) + ")";
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 6fed3782f07d5d3ec831a95337215dea4d9ec03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 055/126] fix: the equation solver of generated C code is given
 the number of equations with each call

---
 symbolics/writer/CWriter.cpp         | 52 +++++++++++++---------------
 symbolics/writer/FMUWriter.cpp       |  8 ++---
 symbolics/writer/include/CWriter.h   |  6 ++--
 symbolics/writer/include/FMUWriter.h |  2 +-
 4 files changed, 31 insertions(+), 37 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 069a3d2..cbb3ece 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -57,22 +57,20 @@ CWriter::~CWriter()
 double CWriter::generateTarget_Impl(Graph::Graph &g)
 /*****************************************************************************/
 {
-	int dim = 0;
-
 	if (m_simulink_sfunction)
 	{
-		double t1 = generateAll(g, dim);
-		double t2 = generateFunctionmodule(dim);
+		double t1 = generateAll(g);
+		double t2 = generateFunctionmodule();
 		return t1+t2;
 	}
 	else
 	{
-		double t1 = generateDerState(g, dim);
+		double t1 = generateDerState(g);
 		double t2 = 0;
 		if (m_include_visual)
 			t2 = generateVisual(g);
 		double t3 = generateSensors(g);
-		double t4 = generateFunctionmodule(dim);
+		double t4 = generateFunctionmodule();
 		double t5 = 0.0;
 		if (m_pymbs_wrapper)
 			t5 = generatePymbsWrapper(g);
@@ -83,7 +81,7 @@ double CWriter::generateTarget_Impl(Graph::Graph &g)
 /*****************************************************************************/
 
 /*****************************************************************************/
-double CWriter::generateDerState(Graph::Graph& g, int &dim)
+double CWriter::generateDerState(Graph::Graph& g)
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -129,7 +127,6 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		size_t pos = positions[states.at(i)->getName()];
-		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
 			f << "y[" << pos+j << "]" << (j+1 < n ? ", " : "");
@@ -417,7 +414,9 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 				s << "    {" << std::endl;
 				s << "        double solve_A[" << dim << "][" << dim << "] = " << m_p->print(solve->getArg1()) << ";" << std::endl;
 				s << "        double solve_b[" << dim << "] = " << m_p->print(solve->getArg2()) << ";" << std::endl;
-				s << "        legs(solve_A, solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
+				s << "        int solve_indx[" << dim << "];" << std::endl;
+				s << "        double solve_c[" << dim << "];" << std::endl;
+				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ", solve_indx, solve_c);" << std::endl;
 				s << "    }" << std::endl;
 			} else {
 				// ordinary equation
@@ -703,7 +702,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 
 
 /*****************************************************************************/
-double CWriter::generateFunctionmodule(int n)
+double CWriter::generateFunctionmodule()
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -731,42 +730,41 @@ double CWriter::generateFunctionmodule(int n)
 	f << std::endl;
 	f << "#include <stdio.h>" << std::endl;
 	f << "#include <math.h>" << std::endl;
-	f << "#define n " << n << std::endl;
 	f << std::endl;
-	f << "void elgs(double A[n][n], int *indx);" << std::endl;
+	f << "void elgs (int n, double *A, int *indx, double *c);" << std::endl;
 	f << std::endl;
-	f << "void legs (double A[n][n], double *b, double *x)" << std::endl;
+	f << "void legs (int n, double *A, double *b, double *x, int *indx, double *c)" << std::endl;
 	f << "/* Function to solve the equation A[n][n]*x[n] = b[n] with the" << std::endl;
 	f << "   partial-pivoting Gaussian elimination scheme." << std::endl;
+	f << "   A is given row by row, indx[n] and c[n] are working memory." << std::endl;
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
 	f << "{" << std::endl;
-	f << "  int indx[n];" << std::endl;
 	f << "  int i, j;" << std::endl;
 	f << std::endl;
-	f << "  elgs (A,indx);" << std::endl;
+	f << "  elgs (n,A,indx,c);" << std::endl;
 	f << std::endl;
 	f << "  for(i = 0; i < n-1; ++i)" << std::endl;
 	f << "  {" << std::endl;
 	f << "    for(j = i+1; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      b[indx[j]] = b[indx[j]]-A[indx[j]][i]*b[indx[i]];" << std::endl;
+	f << "      b[indx[j]] = b[indx[j]]-A[indx[j]*n+i]*b[indx[i]];" << std::endl;
 	f << "    }" << std::endl;
 	f << "  }" << std::endl;
 	f << std::endl;
-	f << "  x[n-1] = b[indx[n-1]]/A[indx[n-1]][n-1];" << std::endl;
+	f << "  x[n-1] = b[indx[n-1]]/A[indx[n-1]*n+n-1];" << std::endl;
 	f << "  for (i = n-2; i>=0; i--)" << std::endl;
 	f << "  {" << std::endl;
 	f << "    x[i] = b[indx[i]];" << std::endl;
 	f << "    for (j = i+1; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      x[i] = x[i]-A[indx[i]][j]*x[j];" << std::endl;
+	f << "      x[i] = x[i]-A[indx[i]*n+j]*x[j];" << std::endl;
 	f << "    }" << std::endl;
-	f << "    x[i] = x[i]/A[indx[i]][i];" << std::endl;
+	f << "    x[i] = x[i]/A[indx[i]*n+i];" << std::endl;
 	f << "  }" << std::endl;
 	f << std::endl;
 	f << "}" << std::endl;
 	f << std::endl;
-	f << "void elgs (double A[n][n], int *indx)" << std::endl;
+	f << "void elgs (int n, double *A, int *indx, double *c)" << std::endl;
 	f << std::endl;
 	f << "/* Function to perform the partial pivoting Gaussian elimination." << std::endl;
 	f << "   A[][] is the original matrix in the input and transformed" << std::endl;
@@ -775,7 +773,6 @@ double CWriter::generateFunctionmodule(int n)
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
 	f << std::endl;
 	f << "{" << std::endl;
-	f << "  double c[n];" << std::endl;
 	f << "  int i, j, l;" << std::endl;
 	f << std::endl;
 	f << "/* Initialize the index */" << std::endl;
@@ -792,7 +789,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    double c1 = 0;" << std::endl;
 	f << "    for (j = 0; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      if (fabs(A[i][j]) > c1) c1 = fabs(A[i][j]);" << std::endl;
+	f << "      if (fabs(A[i*n+j]) > c1) c1 = fabs(A[i*n+j]);" << std::endl;
 	f << "    }" << std::endl;
 	f << "	c[i] = c1;" << std::endl;
 	f << "  }" << std::endl;
@@ -806,7 +803,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    double pi1 = 0;" << std::endl;
 	f << "    for (i = j; i < n; ++i)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      double pi = fabs(A[indx[i]][j])/c[indx[i]];" << std::endl;
+	f << "      double pi = fabs(A[indx[i]*n+j])/c[indx[i]];" << std::endl;
 	f << "      if (pi > pi1)" << std::endl;
 	f << "      {" << std::endl;
 	f << "        pi1 = pi;" << std::endl;
@@ -821,17 +818,17 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    indx[k] = itmp;" << std::endl;
 	f << "    for (i = j+1; i < n; ++i)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      double pj = A[indx[i]][j]/A[indx[j]][j];" << std::endl;
+	f << "      double pj = A[indx[i]*n+j]/A[indx[j]*n+j];" << std::endl;
 	f << std::endl;
 	f << "/* Record pivoting ratios below the diagonal */" << std::endl;
 	f << std::endl;
-	f << "      A[indx[i]][j] = pj;" << std::endl;
+	f << "      A[indx[i]*n+j] = pj;" << std::endl;
 	f << std::endl;
 	f << "/* Modify other elements accordingly */" << std::endl;
 	f << std::endl;
 	f << "      for (l = j+1; l < n; ++l)" << std::endl;
 	f << "      {" << std::endl;
-	f << "        A[indx[i]][l] = A[indx[i]][l]-pj*A[indx[j]][l];" << std::endl;
+	f << "        A[indx[i]*n+l] = A[indx[i]*n+l]-pj*A[indx[j]*n+l];" << std::endl;
 	f << "      }" << std::endl;
 	f << "    }" << std::endl;
 	f << "  }" << std::endl;
@@ -844,7 +841,7 @@ double CWriter::generateFunctionmodule(int n)
 /*****************************************************************************/
 
 /*****************************************************************************/
-double CWriter::generateAll(Graph::Graph& g, int &dim)
+double CWriter::generateAll(Graph::Graph& g)
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -885,7 +882,6 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		size_t pos = positions[states.at(i)->getName()];
-		dim = n;
 		f << "    const double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
 			f << "y[" << pos+j << "]" << (j+1 < n ? ", " : "");
diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 6e7d1b8..170b2d5 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -167,9 +167,8 @@ double FMUWriter::generateTarget_Impl(Graph::Graph &g)
 
 	m_path += "/sources"; 
 
-	int dim;
-	double t2 = generateModel(g, dim);
-	double t3 = generateFunctionmodule(dim);
+	double t2 = generateModel(g);
+	double t3 = generateFunctionmodule();
 
 	//Template Dateien kopieren
 	if (filesystem::is_regular(m_path + "/fmuTemplate.h"))
@@ -411,7 +410,7 @@ double FMUWriter::generateXML(Graph::Graph& g)
 
 
 /*****************************************************************************/
-double FMUWriter::generateModel(Graph::Graph& g, int &dim)
+double FMUWriter::generateModel(Graph::Graph& g)
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -469,7 +468,6 @@ double FMUWriter::generateModel(Graph::Graph& g, int &dim)
 	{
 		size_t m = (*it)->getShape().getDimension(1);
 		size_t n = (*it)->getShape().getDimension(2);
-		dim = m*n;
 		for (size_t i = 0; i < m; ++i)
 			for (size_t j = 0; j < n; ++j)
 				f << (it==states.begin()&&!i&&!j ? " " : ", ") << (*it)->getName()
diff --git a/symbolics/writer/include/CWriter.h b/symbolics/writer/include/CWriter.h
index 29d2a92..20bd504 100644
--- a/symbolics/writer/include/CWriter.h
+++ b/symbolics/writer/include/CWriter.h
@@ -21,20 +21,20 @@ namespace Symbolics
 		CPrinter *m_p; // Der Hauptprinter dieser Writerklasse
 
 		std::string writeEquations(std::vector<Graph::Assignment> const& equations) const;
-		double generateFunctionmodule(int n);
+		double generateFunctionmodule();
 
     private:
 		bool m_pymbs_wrapper;
 		bool m_simulink_sfunction;
 		bool m_include_visual;
 
-		double generateDerState(Graph::Graph& g, int &dim);
+		double generateDerState(Graph::Graph& g);
 		double generateVisual(Graph::Graph& g);
 		double generateSensors(Graph::Graph& g);
         
 		double generatePymbsWrapper(Graph::Graph& g);
 
-		double generateAll(Graph::Graph& g, int &dim);
+		double generateAll(Graph::Graph& g);
 
     };
 };
diff --git a/symbolics/writer/include/FMUWriter.h b/symbolics/writer/include/FMUWriter.h
index a0181cb..0055f13 100644
--- a/symbolics/writer/include/FMUWriter.h
+++ b/symbolics/writer/include/FMUWriter.h
@@ -26,7 +26,7 @@ namespace Symbolics
         std::vector<std::string> split_path(std::string path);
 
 		double generateXML(Graph::Graph& g);
-		double generateModel(Graph::Graph& g, int &dim);
+		double generateModel(Graph::Graph& g);
 
        	int m_numberOfStates;
         std::string m_guid;
-- 
2.43.0


From 67f02132d161ec4a03a75c5a475ab39d5c94efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 056/126] fix: generated C code returns scalar sensors

---
 symbolics/writer/CWriter.cpp       | 47 ++++++++++++++++++++++++++----
 symbolics/writer/include/CWriter.h |  2 ++
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index cbb3ece..c420ac6 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -234,7 +234,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	f << "__declspec(dllexport) int "<< m_name <<"_visual(double * y"; 
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
-		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+		f << ", " << declareOutput(*it);
 	f << ")" << std::endl;  //evtl noch die statesize mit�bergeben, aber die kenn wir eigentlich auch
 	f << "{" << std::endl;
 
@@ -271,9 +271,11 @@ double CWriter::generateVisual(Graph::Graph& g)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << writeScalarOutputs(sens_vis, true);
 	f << "/* calculate visual sensors */" << std::endl;
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
     f << std::endl;
+	f << writeScalarOutputs(sens_vis, false);
 
 	f << "	return 0;" << std::endl;
 	f << "}" << std::endl;
@@ -333,9 +335,9 @@ double CWriter::generateSensors(Graph::Graph& g)
 		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
 		if (it==sensors.begin())
-			f << ", " << std::endl <<"                double " << m_p->print(*it) << m_p->dimension(*it);
+			f << ", " << std::endl <<"                " << declareOutput(*it);
 		else
-			f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+			f << ", " << declareOutput(*it);
 	f << ")" << std::endl;  
 	f << "{" << std::endl;
 
@@ -372,9 +374,11 @@ double CWriter::generateSensors(Graph::Graph& g)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << writeScalarOutputs(sensors, true);
 	f << "/* calculate sensors */" << std::endl;
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
     f << std::endl;
+	f << writeScalarOutputs(sensors, false);
 
 	f << "	return 0;" << std::endl;
 	f << "}" << std::endl;
@@ -429,6 +433,39 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+std::string CWriter::declareOutput(SymbolPtr const& s) const
+/*****************************************************************************/
+{
+	// C passes scalars by value: they can only be returned through a pointer
+	if (s->is_Scalar())
+		return "double * " + m_p->print(s) + "_out";
+	return "double " + m_p->print(s) + m_p->dimension(s);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+std::string CWriter::writeScalarOutputs(Graph::VariableVec const& outputs, bool declare) const
+/*****************************************************************************/
+{
+	std::stringstream s;
+
+	for (Graph::VariableVec::const_iterator it=outputs.begin(); it!=outputs.end(); ++it)
+	{
+		if (!(*it)->is_Scalar())
+			continue;
+		if (declare)
+			s << "    double " << m_p->print(*it) << " = 0;" << std::endl;
+		else
+			s << "    *" << m_p->print(*it) << "_out = " << m_p->print(*it) << ";" << std::endl;
+	}
+	if (s.tellp() > 0)
+		s << std::endl;
+
+	return s.str();
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 double CWriter::generatePymbsWrapper(Graph::Graph& g)
 /*****************************************************************************/
@@ -560,7 +597,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sens_vis.begin(); it!=sens_vis.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=1)";
 		else
 			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
 	}
@@ -629,7 +666,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sensors.begin(); it!=sensors.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=1)";
 		else
 		//	f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
             f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=2)";
diff --git a/symbolics/writer/include/CWriter.h b/symbolics/writer/include/CWriter.h
index 20bd504..c3003c0 100644
--- a/symbolics/writer/include/CWriter.h
+++ b/symbolics/writer/include/CWriter.h
@@ -21,6 +21,8 @@ namespace Symbolics
 		CPrinter *m_p; // Der Hauptprinter dieser Writerklasse
 
 		std::string writeEquations(std::vector<Graph::Assignment> const& equations) const;
+		std::string declareOutput(SymbolPtr const& s) const;
+		std::string writeScalarOutputs(Graph::VariableVec const& outputs, bool declare) const;
 		double generateFunctionmodule();
 
     private:
-- 
2.43.0


From 8d8dc824e10063a238e10552005a174b3d76a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 057/126] fix: the third arcus tangent the optimiser extracts
 is not called atan2

---
 symbolics/graph/include/PreOptimisation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index bb3b64c..d104b02 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -70,8 +70,8 @@ namespace Symbolics
                     name += ii->first->getArg(0)->toString();
                   else
                     name += str(n++);
-                  // check for free name
-                  if (m_eqsys->hasSymbol(name))
+                  // check for free name, atan2 is the name of a function
+                  while (m_eqsys->hasSymbol(name) || name == Basic_TypetoStr(Type_Atan2))
                     name += str(n++);
                   SymbolPtr sp(new Symbol(name,ii->first->getShape()));
                   m_eqsys->addSymbol(sp);
-- 
2.43.0


From 9b5fb8648a3427a66efd5a347bb27ec4046f9022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 058/126] fix: vector and matrix parameters in the sensors of
 generated Fortran code

---
 symbolics/writer/FortranWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index b8d9997..1f3cd57 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -258,7 +258,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
@@ -381,7 +381,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
-- 
2.43.0


From dafd3aa9588a8b547fe47f40354c18b268368501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 059/126] fix: constants in generated Fortran code

---
 symbolics/writer/FortranWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 1f3cd57..f58facb 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -122,7 +122,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -263,7 +263,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -386,7 +386,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
-- 
2.43.0


From baf601c8163f5294dff54efe3d4f94f13d48e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 060/126] fix: equation solver of generated Fortran code is
 standard Fortran

---
 symbolics/writer/FortranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index f58facb..1818a7b 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -825,7 +825,7 @@ double FortranWriter::generateFunctionmodule()
 	f << "  DO I = 1, N" << std::endl;
 	f << "    C1= 0.0" << std::endl;
 	f << "    DO J = 1, N" << std::endl;
-	f << "      C1 = AMAX1(C1,ABS(A(I,J)))" << std::endl;
+	f << "      C1 = MAX(C1,ABS(A(I,J)))" << std::endl;
 	f << "    END DO" << std::endl;
 	f << "    C(I) = C1" << std::endl;
 	f << "  END DO" << std::endl;
-- 
2.43.0


From 5bf29b8cbb987401368bf0ab9afd79ea72d9ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 061/126] fix: generated Fortran code with several vector
 valued equations that are split into scalars

---
 symbolics/writer/FortranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 1818a7b..161b261 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -474,7 +474,7 @@ std::string FortranWriter::writeEquations(std::vector<Graph::Assignment> const&
 					s << "    temp_var_" << additionalVarDefs.size() << " = " << m_p->print(simple_exp) << std::endl; 
 					for (size_t j=0; j < mat->getShape().getDimension(1); j++)
 						for (size_t k=0; k < mat->getShape().getDimension(2); k++)
-							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_1(" << j+1<< "," << k+1 << ")" << std::endl;
+							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_" << additionalVarDefs.size() << "(" << j+1<< "," << k+1 << ")" << std::endl;
 				}
 			} else {
 				// ordinary equation
-- 
2.43.0


From aec9635c66e6ca335be8d42ac2013eaaf53abe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 062/126] fix: matrices that are not square in generated
 Fortran code

---
 symbolics/printer/FortranPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index 9506f56..1cb3526 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -109,10 +109,10 @@ std::string FortranPrinter::print_Matrix( const Matrix *mat )
 		{
 			for (size_t n=0;n<rows;++n) {
 				s += print((*mat)(n,m));
-				if ((m+1)*(n+1) < rows*cols) //immer Komma au�er am Ende
+				if (m*rows+n+1 < rows*cols) //immer Komma au�er am Ende
 					s += ", "; 
 			}
-			if (cols > 1 && m < (rows-1)) //Matritzen mit Zeilenumbr�chen zur besseren Lesbarkeit
+			if (cols > 1 && m < (cols-1)) //Matritzen mit Zeilenumbr�chen zur besseren Lesbarkeit
 				s += "&\n        ";
 		}
 	
-- 
2.43.0


From e658e2ba183835f488093ff6236866922971ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 063/126] fix: powers of negative parameters in generated
 Fortran code

---
 symbolics/printer/FortranPrinter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index 1cb3526..610ff5e 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -138,7 +138,14 @@ std::string FortranPrinter::print_Pow( const Pow *pow )
 {
 	if (pow == NULL) throw InternalError("FortranPrinter: Pow is NULL");
 	if (pow->getBase()->is_Scalar())
+	{
+		// A negative parameter or expression of parameters must not be raised to a real power
+		bool isVariable = pow->getBase()->getType() == Type_Symbol
+		               && Util::getAsConstPtr<Symbol>(pow->getBase())->getKind() == VARIABLE;
+		if (pow->getExponent()->getType() == Type_Int && !isVariable)
+			return "(" + print(pow->getBase()) + "**(" + str(Util::getAsConstPtr<Int>(pow->getExponent())->getValue()) + "))";
 		return "(" + print(pow->getBase()) + "**" + print(pow->getExponent()) + ")";
+	}
     
     if (!pow->getBase()->is_Matrix())
         return error("FortranPrinter: Pow: Base is neither Scalar nor Matrix, it expands to: '" + print(pow->getBase()) + "'");
-- 
2.43.0


From e5889ec53d0008621b812a65ab439ca06c9319f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 064/126] fix: constants are declared before the parameters
 that use them in generated C and Fortran code

---
 symbolics/writer/CWriter.cpp       | 40 +++++++++++++++---------------
 symbolics/writer/FortranWriter.cpp | 30 +++++++++++-----------
 2 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index c420ac6..53d57a4 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -136,16 +136,16 @@ double CWriter::generateDerState(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -251,16 +251,16 @@ double CWriter::generateVisual(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -354,16 +354,16 @@ double CWriter::generateSensors(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -927,16 +927,16 @@ double CWriter::generateAll(Graph::Graph& g)
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
 	}
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameters.begin();it!=parameters.end();++it)
-		f << "    const double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    const double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameters.begin();it!=parameters.end();++it)
+		f << "    const double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 161b261..092de48 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -115,16 +115,16 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 		f << "    double precision, intent(in)" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
     
-	f << "!Parameters" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
+	f << "!Parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "!User Expression variables" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
         f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
@@ -256,16 +256,16 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 		f << "    double precision, intent(in)" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
     
-	f << "!Parameters" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
+	f << "!Parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "!User Expression variables" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
         f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
@@ -379,16 +379,16 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
     
-	f << "!Parameters" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
+	f << "!Parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "!User Expression variables" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
         f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-- 
2.43.0


From 7ab133ecf96c54582c8f5f29348ada2a311a2ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 065/126] fix: products of vectors and matrices with scalars in
 between in generated Fortran code

---
 symbolics/printer/FortranPrinter.cpp | 32 +++++++++++++++++++---------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index 610ff5e..d193436 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -45,20 +45,32 @@ std::string FortranPrinter::print_Mul( const Mul *mul )
 	if (mul == NULL) throw InternalError("FortranPrinter: Mul is NULL");
 	std::string s="(", t="";
     size_t n = mul->getArgsSize();
-    bool includes_matmul = false;
-    for (size_t i=0; i<n-1; ++i)
+    size_t rows = 0, cols = 0; // size of the matrix product t
+    for (size_t i=0; i<n; ++i)
     {
-		if (!mul->getArg(i)->is_Scalar() && !mul->getArg(i+1)->is_Scalar()) {
-			s += "matmul(" + print(mul->getArg(i)) + ",";
-			t += ")";
-			includes_matmul = true;
+		BasicPtr arg = mul->getArg(i);
+		if (arg->is_Scalar()) {
+			// the order of the scalars does not matter
+			s += print(arg) + "*";
+			continue;
+		}
+		if (rows == 1 && cols == 1 && arg->getShape().getDimension(1) != 1) {
+			// the matrices so far make a scalar
+			s += "scalar(" + t + ")*";
+			t = "";
+		}
+		if (t.empty()) {
+			t = print(arg);
+			rows = arg->getShape().getDimension(1);
 		} else {
-			s+= print(mul->getArg(i)) + t + "*";
-			t="";
+			t = "matmul(" + t + "," + print(arg) + ")";
 		}
+		cols = arg->getShape().getDimension(2);
     }
-    s += print(mul->getArg(n-1)) + t + ")";
-	if (includes_matmul && mul->is_Scalar()) //TODO: was ist mit (1,1) Matrizen? 
+	if (t.empty())
+		s.erase(s.size()-1);
+    s += t + ")";
+	if (!t.empty() && mul->is_Scalar()) //TODO: was ist mit (1,1) Matrizen? 
 		s = "scalar" + s; //keine Klammern n�tig, diese sollten schon da sein
     return s;
 }
-- 
2.43.0


From 30afd42eb8ac27ea501a5b006dc52e37764457f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 066/126] fix: scalars of scalar products in generated Fortran
 code

---
 symbolics/printer/FortranPrinter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index d193436..c59f76a 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -195,6 +195,9 @@ std::string FortranPrinter::print_Scalar( const Scalar *s )
 /*****************************************************************************/
 {  // Diese Funktion sollte so funktionieren, wird aber scheinbar kaum genutzt - momentan wird es in mul "emuliert"
 	if (s == NULL) throw InternalError("FortranPrinter: Scalar is NULL");
+	// a product that is scalar is printed as a scalar already
+	if (s->getArg()->getType() == Type_Mul && s->getArg()->is_Scalar())
+		return print(s->getArg());
 	return "scalar(" + print(s->getArg()) + ")";
 }
 /*****************************************************************************/
-- 
2.43.0


From 96eadd5abc9c20ff3fc6c78b005c82922b823f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 067/126] fix: Equal of the Python binding compares for
 equality

---
 symbolics/wrapper/PySymbolics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/wrapper/PySymbolics.cpp b/symbolics/wrapper/PySymbolics.cpp
index 97fa665..6255ceb 100644
--- a/symbolics/wrapper/PySymbolics.cpp
+++ b/symbolics/wrapper/PySymbolics.cpp
@@ -152,7 +152,7 @@ PyMODINIT_FUNC PyInit_symbolics(void)
     if (!registerObject( &CGreaterObjectType, "Greater", m))
         return NULL;
     // CEqual
-    if (!registerObject( &CLessObjectType, "Equal", m))
+    if (!registerObject( &CEqualObjectType, "Equal", m))
         return NULL;
     // CGraph
     if (!registerObject( &CGraphObjectType, "CGraph", m))
-- 
2.43.0


From 9e7bc53a27c517454be76e261e9059324e8b16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 068/126] fix: objects of the Python binding that were not
 initialised are refused

---
 symbolics/wrapper/CBasic.cpp  | 39 ++++++++++++++++++++++++++---------
 symbolics/wrapper/convert.cpp |  2 ++
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 2ae83b2..8b4018e 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -444,7 +444,7 @@ static PyObject* CBasic_shape(CBasicObject *self, PyObject *args)
     try
     {
         // Shape holen
-        const Shape s = self->m_basic->getShape();
+        const Shape s = getBasic(reinterpret_cast<PyObject*>(self))->getShape();
         PyObject *shapeObj = fromShape(s);        
         // RefCount erhoehen und zurueckgeben
         return shapeObj;
@@ -461,7 +461,7 @@ static PyObject* CBasic_simplify(CBasicObject *self, PyObject *args)
     try
     {
 		// Simplify ausfuehren
-		self->m_basic = self->m_basic->simplify();
+		self->m_basic = getBasic(reinterpret_cast<PyObject*>(self))->simplify();
 
     self->ob_type = PyFactory::ObjectType(self->m_basic);
     
@@ -479,9 +479,13 @@ static PyObject* CBasic_simplify(CBasicObject *self, PyObject *args)
 static Py_ssize_t CBasic_len(CBasicObject *self)
 /*****************************************************************************/
 {
-	// Shape zurueckgeben
-	Shape const& s = self->m_basic->getShape();
-	return s.getNumEl();
+	try
+	{
+		// Shape zurueckgeben
+		Shape const& s = getBasic(reinterpret_cast<PyObject*>(self))->getShape();
+		return s.getNumEl();
+	}
+	STD_ERROR_HANDLER(-1);
 }
 /*****************************************************************************/
 
@@ -702,7 +706,7 @@ static PyObject* CBasic_get(CBasicObject *self, PyObject *index)
 {
 	try
 	{
-		BasicPtr &basic = self->m_basic;
+		BasicPtr basic( getBasic(reinterpret_cast<PyObject*>(self)) );
 		BasicPtr element;
 
 		// Index holen
@@ -811,7 +815,14 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 {
 	try
 	{
-		BasicPtr &basic = self->m_basic;
+		BasicPtr basic( getBasic(reinterpret_cast<PyObject*>(self)) );
+
+		// Elemente koennen nicht geloescht werden
+		if (value == NULL)
+		{
+			PyErr_SetString(PyExc_TypeError, "Elements of matrices cannot be deleted!");
+			return -1;
+		}
 
 		// Index holen
 		std::vector<int> m;
@@ -903,7 +914,7 @@ static PyObject* CBasic_cmp(CBasicObject *self, PyObject *other, int op)
 	try
 	{
 		// lhs und rhs holen
-		BasicPtr lhs( self->m_basic );
+		BasicPtr lhs( getBasic(reinterpret_cast<PyObject*>(self)) );
 		BasicPtr rhs( getBasic(other) );
 
 		// op auswerten
@@ -963,8 +974,10 @@ static PyObject* CBasic_cmp(CBasicObject *self, PyObject *other, int op)
 PyObject* CBasic_atoms(CBasicObject *self, PyObject *args)
 /*****************************************************************************/
 {
+	try
+	{
 	// Atoms extrahieren
-	Basic::BasicSet atoms = self->m_basic->getAtoms();
+	Basic::BasicSet atoms = getBasic(reinterpret_cast<PyObject*>(self))->getAtoms();
 
 	// Atoms in Tule verpacken
 	PyObject *tuple = PyTuple_New( atoms.size() );
@@ -984,6 +997,8 @@ PyObject* CBasic_atoms(CBasicObject *self, PyObject *args)
 	// RefCount erhoehen
 	Py_IncRef(tuple);
 	return tuple;
+	}
+	STD_ERROR_HANDLER(NULL);
 }
 /*****************************************************************************/
 
@@ -992,8 +1007,10 @@ PyObject* CBasic_atoms(CBasicObject *self, PyObject *args)
 PyObject* CBasic_norm(CBasicObject *self, PyObject *args)
 /*****************************************************************************/
 {
+	try
+	{
 	// Referenz auf Basic holen
-	BasicPtr const& basic = self->m_basic;
+	BasicPtr basic( getBasic(reinterpret_cast<PyObject*>(self)) );
 
 	// Nach Typ unterscheiden
 	switch (basic->getType())
@@ -1033,5 +1050,7 @@ PyObject* CBasic_norm(CBasicObject *self, PyObject *args)
 		PyErr_SetString(SymbolicsError, "norm() is only implemented for matrix types!");
 		return NULL;
 	}
+	}
+	STD_ERROR_HANDLER(NULL);
 }
 /*****************************************************************************/
diff --git a/symbolics/wrapper/convert.cpp b/symbolics/wrapper/convert.cpp
index 19cdd1e..b534d2f 100644
--- a/symbolics/wrapper/convert.cpp
+++ b/symbolics/wrapper/convert.cpp
@@ -474,6 +474,8 @@ BasicPtr getBasic( PyObject *o )
     if (PyType_IsSubtype(Py_TYPE(o), &Symbolics::Python::CBasicObjectType))
     {
         Symbolics::Python::CBasicObject* basic = reinterpret_cast<Symbolics::Python::CBasicObject*>(o);
+        if (basic->m_basic.get() == NULL)
+            throw InternalError("Object has not been initialised!");
         return basic->m_basic;
     }
     // Type == int
-- 
2.43.0


From 276047f690cb630207a48b0167cfb99ae78ad1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 069/126] fix: setting an element of a matrix does not change
 expressions the matrix was used in

---
 symbolics/wrapper/CBasic.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 8b4018e..b918fdb 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -858,8 +858,7 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 			// Casten des Objektes fuer Python
 			self->ob_type = &CMatrixObjectType;
 			Py_INCREF(&CMatrixObjectType);
-			self->m_basic = BasicPtr( new Matrix( basic->getShape() ) );
-			basic = self->m_basic;
+			basic = BasicPtr( new Matrix( basic->getShape() ) );
 		}
 
 		// Eye in Matrix wandeln
@@ -868,17 +867,16 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 			// Casten des Objektes fuer Python
 			self->ob_type = &CMatrixObjectType;
 			Py_INCREF(&CMatrixObjectType);
-			Matrix *mat = new Matrix( sb );
-			self->m_basic = BasicPtr( mat );
-			basic = self->m_basic;
-			size_t min = sb.getDimension(1);
-			if (sb.getDimension(2) < min) min = sb.getDimension(2);
-			for(size_t i=0; i<min; ++i)
+			const Shape se = basic->getShape();
+			Matrix *mat = new Matrix( se );
+			basic = BasicPtr( mat );
+			for(size_t i=0; i<se.getDimension(1); ++i)
 				mat->set(i,i, Int::getOne());
 		}
 
-		// Matrix holen
-		Matrix* mat = Util::getAsPtr<Matrix>(self->m_basic);
+		// Kopie der Matrix veraendern, da sie Teil anderer Ausdruecke oder des Wertes sein kann
+		Matrix* mat = new Matrix( *Util::getAsConstPtr<Matrix>(basic) );
+		BasicPtr copy( mat );
 
 		// Wert(e) setzen
 		if (slicing(m,n))	// Slicing
@@ -897,6 +895,7 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 			else
 				mat->set(m[0], b);
 		}
+		self->m_basic = copy;
 
 		// Alles ok
 		return 0;
-- 
2.43.0


From f981aeabf51e50037ff5d4a829a78cc2ba6b9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 070/126] fix: files that cannot be written are reported

---
 symbolics/writer/CSharpWriter.cpp   |  6 +++---
 symbolics/writer/CWriter.cpp        | 16 ++++++++--------
 symbolics/writer/FMUWriter.cpp      |  4 ++--
 symbolics/writer/FortranWriter.cpp  | 14 +++++++-------
 symbolics/writer/MatlabWriter.cpp   | 12 ++++++------
 symbolics/writer/ModelicaWriter.cpp |  2 +-
 symbolics/writer/PythonWriter.cpp   |  6 +++---
 symbolics/writer/Writer.cpp         | 13 +++++++++++++
 symbolics/writer/include/Writer.h   |  4 ++++
 9 files changed, 47 insertions(+), 30 deletions(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index f108c3a..a46e239 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -88,7 +88,7 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_der_state.cs";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "/* " << getHeaderLine() << " */" << std::endl;
 	f << "using System;" << std::endl;
@@ -218,7 +218,7 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_visual.cs";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "/* " << getHeaderLine() << " */" << std::endl;
 		
@@ -348,7 +348,7 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_sensors.cs";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "/* " << getHeaderLine() << " */" << std::endl;
 	
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 53d57a4..27caca1 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -106,7 +106,7 @@ double CWriter::generateDerState(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_der_state.c";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "/* " << getHeaderLine() << " */" << std::endl;
 	f << "#include <math.h>" << std::endl;
@@ -224,7 +224,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_visual.c";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "/* " << getHeaderLine() << " */" << std::endl;
 	
@@ -322,7 +322,7 @@ double CWriter::generateSensors(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_sensors.c";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "/* " << getHeaderLine() << " */" << std::endl;
 	
@@ -488,7 +488,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_der_state_CWrapper.py";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -583,7 +583,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
     filename= m_path + "/" + m_name + "_visual_CWrapper.py";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -645,7 +645,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	std::sort(sens_inputs.begin(),sens_inputs.end(), sortVariableVec);
 
     filename= m_path + "/" + m_name + "_sensors_CWrapper.py";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -747,7 +747,7 @@ double CWriter::generateFunctionmodule()
 
 	std::ofstream f;
     std::string filename= m_path + "/functionmodule.c";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "/* " << getHeaderLine() << " */" << std::endl;
 	f << std::endl;
@@ -886,7 +886,7 @@ double CWriter::generateAll(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + ".c"; 
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	Symbolics::Graph::Category_Type cats = DER_STATE|SENSOR;
 	if (m_include_visual)
diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 170b2d5..b71e3f1 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -220,7 +220,7 @@ double FMUWriter::generateXML(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/modelDescription.xml"; 
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE|SENSOR|SENSOR_VISUAL);
 
@@ -418,7 +418,7 @@ double FMUWriter::generateModel(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + ".c"; 
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE|SENSOR|SENSOR_VISUAL);
 
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 092de48..8a28eb6 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -82,7 +82,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_der_state.f90";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "! " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -218,7 +218,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_sensors.f90";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "! " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -351,7 +351,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_visual.f90";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "! " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -509,7 +509,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_der_state_F90Wrapper.py";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -547,7 +547,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
     filename= m_path + "/" + m_name + "_visual_F90Wrapper.py";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -589,7 +589,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 	std::sort(sensor.begin(),sensor.end(), sortVariableVec);
 
     filename= m_path + "/" + m_name + "_sensors_F90Wrapper.py";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -643,7 +643,7 @@ double FortranWriter::generateFunctionmodule()
 
 	std::ofstream f;
     std::string filename= m_path + "/functionmodule.f90";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "! " << getHeaderLine() << std::endl;
 	f << std::endl;
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index c19698d..72fd760 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -68,7 +68,7 @@ double MatlabWriter::generateBasicSim(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_sim.m";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
@@ -167,7 +167,7 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 	
 	std::ofstream f;
 	std::string filename= m_path + "/" + m_name + "_der_state.m";
-	f.open(filename.c_str());
+	openFile(f, filename);
 
 	f << "% " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -229,7 +229,7 @@ double MatlabWriter::generateSymDerState(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_der_state_symbolic.m";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
@@ -303,7 +303,7 @@ double MatlabWriter::generateInputs(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_inputs.m";
-    f.open(filename.c_str());
+    openFile(f, filename);
 	Graph::VariableVec inputs = g.getVariables(INPUT);
 
 	f << "% " << getHeaderLine() << std::endl;
@@ -356,7 +356,7 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_sensors.m";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "% " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -438,7 +438,7 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_sensors_symbolic.m";
-    f.open(filename.c_str());
+    openFile(f, filename);
 
 	f << "% " << getHeaderLine() << std::endl;
 	f << std::endl;
diff --git a/symbolics/writer/ModelicaWriter.cpp b/symbolics/writer/ModelicaWriter.cpp
index 04bb019..d471797 100644
--- a/symbolics/writer/ModelicaWriter.cpp
+++ b/symbolics/writer/ModelicaWriter.cpp
@@ -45,7 +45,7 @@ double ModelicaWriter::generateTarget_Impl(Graph::Graph &g)
   // open file
   std::ofstream f;
   std::string filename= m_path + "/" + m_name + ".mo";
-  f.open(filename.c_str());
+  openFile(f, filename);
 
   //f.close();
   double t1 = Util::getTime();
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 6b18062..a3fcbd6 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -85,7 +85,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	// open file
 	std::ofstream f;
 	std::string filename= m_path + "/" + m_name + "_der_state.py";
-	f.open(filename.c_str());
+	openFile(f, filename);
 
 
 	// create header line and import statements
@@ -246,7 +246,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	// open file
 	std::ofstream f;
 	std::string filename = m_path + "/" + m_name + "_visual.py";
-	f.open(filename.c_str());
+	openFile(f, filename);
 
 
 	// create header line and import statements
@@ -378,7 +378,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	// open file
 	std::ofstream f;
 	std::string filename = m_path + "/" + m_name + "_sensors.py";
-	f.open(filename.c_str());
+	openFile(f, filename);
 
 
 	// create header line and import statements
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index 69f12f4..3c451ee 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -67,6 +67,19 @@ std::string Writer::getHeaderLine()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+void Writer::openFile(std::ofstream &f, std::string const& filename)
+/*****************************************************************************/
+{
+    f.exceptions(std::ofstream::goodbit);
+    f.open(filename.c_str());
+    if (!f.is_open())
+        throw InternalError("File '" + filename + "' cannot be written!");
+    f.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 bool Writer::sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::intrusive_ptr<Symbolics::Symbol> b)
 /*****************************************************************************/
diff --git a/symbolics/writer/include/Writer.h b/symbolics/writer/include/Writer.h
index 158ee8c..27587b7 100644
--- a/symbolics/writer/include/Writer.h
+++ b/symbolics/writer/include/Writer.h
@@ -4,6 +4,7 @@
 #include <string>
 #include <vector>
 #include <map>
+#include <fstream>
 #include "Symbolics.h"
 #include "Graph.h"
 
@@ -34,6 +35,9 @@ namespace Symbolics
 
         std::string getHeaderLine();
 
+        // Opens a file for writing, throws an exception if that is not possible or if writing fails later on
+        static void openFile(std::ofstream &f, std::string const& filename);
+
 		// Vielleicht ist folgende Funktion logisch sinnvoller in einer anderen Klasse aufgehoben - wenn jemand wei� wo, einfach �ndern.
 		// Die Funktion ist als Parameter f�r die std::sort Funktion gedacht, um Graph::VariableVec Vektoren zu sortieren.
 		// Die Funktion muss static sein, da sie als functionpointer verwendet wird
-- 
2.43.0


From 94cf3bb5d5511cfffa2961c9c4c6a3a94c08398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 071/126] fix: uninitialised graphs and keywords that are no
 strings are refused

---
 symbolics/wrapper/CGraph.cpp | 65 +++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/symbolics/wrapper/CGraph.cpp b/symbolics/wrapper/CGraph.cpp
index a59d5d4..82bc771 100644
--- a/symbolics/wrapper/CGraph.cpp
+++ b/symbolics/wrapper/CGraph.cpp
@@ -154,6 +154,17 @@ static void CGraph_del(CGraphObject *self)
 /*****************************************************************************/
 
 
+/*****************************************************************************/
+static Symbolics::Graph::Graph*& getGraph(CGraphObject *self)
+	/*****************************************************************************/
+{
+	if (self->m_graph == NULL)
+		throw InternalError("Graph has not been initialised!");
+	return self->m_graph;
+}
+/*****************************************************************************/
+
+
 // Funktionen
 /*****************************************************************************/
 static PyObject* CGraph_addVariable(CGraphObject *self, PyObject *args)
@@ -179,11 +190,11 @@ static PyObject* CGraph_addVariable(CGraphObject *self, PyObject *args)
 		// Name an Graphen weiterreichen
 		if (initial != Py_None)
 		{
-			BasicPtr initialValue( toBasic(initial, self->m_graph) );
-			self->m_graph->addSymbol( symbol, initialValue.get(), comment );
+			BasicPtr initialValue( toBasic(initial, getGraph(self)) );
+			getGraph(self)->addSymbol( symbol, initialValue.get(), comment );
 		}
 		else            
-			self->m_graph->addSymbol( symbol, NULL, comment );
+			getGraph(self)->addSymbol( symbol, NULL, comment );
 
 		// Wenn wir bis hier her gekommen sind, dann Symbol als CSymbol zurueckgeben
 		CSymbolObject* sym = new CSymbolObject();
@@ -211,7 +222,7 @@ static PyObject* CGraph_getVariable(CGraphObject *self, PyObject *args)
 			return NULL;
 
 		// Graphen fragen
-		BasicPtr symbol = self->m_graph->getSymbol( name );
+		BasicPtr symbol = getGraph(self)->getSymbol( name );
 
 		// Haben wir es gefunden?
 		if (symbol.get() == NULL)
@@ -246,7 +257,7 @@ static PyObject* CGraph_getVariables(CGraphObject *self, PyObject *args)
 			return 0;
 
 		// Graphen fragen
-		SymbolPtrVec symbols = self->m_graph->getVariables( i );
+		SymbolPtrVec symbols = getGraph(self)->getVariables( i );
 
 		PyObject* pylist = PyList_New(symbols.size());
 
@@ -280,7 +291,7 @@ static PyObject* CGraph_getAssignments(CGraphObject *self, PyObject *args)
 			return 0;
 
 		// Graphen fragen
-		Graph::AssignmentsPtr a = self->m_graph->getAssignments(kind);
+		Graph::AssignmentsPtr a = getGraph(self)->getAssignments(kind);
 		// Gleichungen holen
 		std::vector<Graph::Assignment> assignments = a->getEquations();
 
@@ -316,7 +327,7 @@ static PyObject* CGraph_getinitVal(CGraphObject *self, PyObject *args)
 		SymbolPtr symbol(Util::getAsPtr<Symbol>(getBasic(o)));
 
 		// Graphen fragen
-		BasicPtr initvalue = self->m_graph->getinitVal( symbol );
+		BasicPtr initvalue = getGraph(self)->getinitVal( symbol );
 
 		// Haben wir es gefunden?
 		if (initvalue.get() == NULL)
@@ -367,11 +378,11 @@ static PyObject* CGraph_addEquation(CGraphObject *self, PyObject *args)
 			BasicPtrVec rhs_vec, lhs_vec;
 			for (size_t i=0; i<lhs_size; ++i)
 			{
-				lhs_vec.push_back(toBasic( PyList_GetItem(lhs_Object, i), self->m_graph));
-				rhs_vec.push_back(toBasic( PyList_GetItem(rhs_Object, i), self->m_graph));
+				lhs_vec.push_back(toBasic(PyList_GetItem(lhs_Object, i), getGraph(self)));
+				rhs_vec.push_back(toBasic(PyList_GetItem(rhs_Object, i), getGraph(self)));
 			}
 			// Graphen aufrufen
-			self->m_graph->addExpression( lhs_vec, rhs_vec, implicit );
+			getGraph(self)->addExpression( lhs_vec, rhs_vec, implicit );
 		}
 		else
 		{
@@ -383,13 +394,13 @@ static PyObject* CGraph_addEquation(CGraphObject *self, PyObject *args)
 				size_t size = PyList_Size(lhs_Object);
 				Matrix *mat = new Matrix( Shape( size ) );
 				for (size_t i=0; i<size; ++i)
-					mat->set(i, toBasic( PyList_GetItem(lhs_Object, i), self->m_graph) );
+					mat->set(i, toBasic(PyList_GetItem(lhs_Object, i), getGraph(self)) );
 				lhs = BasicPtr( mat );
 			}
 			else
 				// sonst ganz normal
 				if (lhs_Object!=Py_None)
-					lhs = toBasic(lhs_Object, self->m_graph);
+					lhs = toBasic(lhs_Object, getGraph(self));
 
 			BasicPtr rhs;
 			if (PyList_Check(rhs_Object))
@@ -413,7 +424,7 @@ static PyObject* CGraph_addEquation(CGraphObject *self, PyObject *args)
 						size_t colCount = PyList_Size(curr_Row);
 						if (colCount != n) throw InternalError("Columncount must be constant!");
 						for (size_t j=0; j<n; ++j)
-							mat->set(i, j, toBasic(PyList_GetItem(curr_Row, j), self->m_graph) );
+							mat->set(i, j, toBasic(PyList_GetItem(curr_Row, j), getGraph(self)) );
 					}
 					rhs = BasicPtr( mat );
 				}
@@ -422,15 +433,15 @@ static PyObject* CGraph_addEquation(CGraphObject *self, PyObject *args)
 					// Es ist ein Vektor
 					mat = new Matrix( Shape( m ) );
 					for (size_t i=0; i<m; ++i)
-						mat->set(i, toBasic( PyList_GetItem(rhs_Object, i), self->m_graph) );
+						mat->set(i, toBasic(PyList_GetItem(rhs_Object, i), getGraph(self)) );
 					rhs = BasicPtr( mat );
 				}
 			}
 			else
 				// sonst ganz normal
-				rhs = toBasic(rhs_Object, self->m_graph);
+				rhs = toBasic(rhs_Object, getGraph(self));
 			// Graphen aufrufen
-			self->m_graph->addExpression( lhs, rhs, implicit );
+			getGraph(self)->addExpression( lhs, rhs, implicit );
 		}
 	}
 	STD_ERROR_HANDLER(NULL);
@@ -454,7 +465,7 @@ static PyObject* CGraph_getShape(CGraphObject *self, PyObject *args)
 		if (!PyArg_ParseTuple(args, "O", &o))
 			return NULL;
 		// In ConstBasic aendern
-		BasicPtr basic = toBasic(o, self->m_graph);
+		BasicPtr basic = toBasic(o, getGraph(self));
 		// Shape abrufen und zurueckgeben
 		PyObject *shape = fromShape(basic->getShape());
 		return shape;
@@ -485,7 +496,7 @@ static PyObject* CGraph_buildGraph(CGraphObject *self, PyObject *args)
 		bool optimize = (o == Py_True);
 
 		// Graphen aufbauen
-		double t = self->m_graph->buildGraph( optimize );
+		double t = getGraph(self)->buildGraph( optimize );
 		return PyFloat_FromDouble(t);
 	}
 	STD_ERROR_HANDLER(NULL);
@@ -504,7 +515,7 @@ std::map<std::string, std::string> parseKeywords(PyObject *kwds)
 	std::map<std::string, std::string> keywords;
 
 	// Stimmt der Datentyp
-	if (!PyDict_Check(kwds)) return keywords;
+	if ((kwds == NULL) || !PyDict_Check(kwds)) return keywords;
 
 	// Keys holen
 	PyObject *keys = PyDict_Keys(kwds);
@@ -524,11 +535,17 @@ std::map<std::string, std::string> parseKeywords(PyObject *kwds)
 		if (item == NULL) continue;
 
 		// Key, Item als String speichern
-		std::string strKey = PyUnicode_AsUTF8(key);
+		const char *strKey = PyUnicode_AsUTF8(key);
 		PyObject *str = PyObject_Str(item);
-		if (str == NULL) continue;
-		std::string strItem = PyUnicode_AsUTF8(str);
-		keywords[strKey] = strItem;
+		const char *strItem = (str != NULL) ? PyUnicode_AsUTF8(str) : NULL;
+		if ((strKey != NULL) && (strItem != NULL))
+			keywords[strKey] = strItem;
+		Py_XDECREF(str);
+		if ((strKey == NULL) || (strItem == NULL))
+		{
+			PyErr_Clear();
+			throw InternalError("Keywords and their values must be strings!");
+		}
 	}
 
 	// Fertig
@@ -584,7 +601,7 @@ static PyObject* CGraph_writeOutput(CGraphObject *self, PyObject *args, PyObject
 			throw InternalError(std::string("Unknown target '") + typeString + "'!");
 
 		// Code schreiben
-		t = writer->generateTarget(name, path, *(self->m_graph), true);
+		t = writer->generateTarget(name, path, *getGraph(self), true);
 		return PyFloat_FromDouble(t);
 	}
 	STD_ERROR_HANDLER(NULL);
-- 
2.43.0


From 372ebffbe6c13079b344c207e9dabbb0460ef207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 072/126] fix: hash of a symbol that was not initialised is
 refused

---
 symbolics/wrapper/CSymbol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolics/wrapper/CSymbol.cpp b/symbolics/wrapper/CSymbol.cpp
index a5b320a..d92a881 100644
--- a/symbolics/wrapper/CSymbol.cpp
+++ b/symbolics/wrapper/CSymbol.cpp
@@ -131,6 +131,11 @@ static void CSymbol_del(CSymbolObject *self)
 static long CSymbol_hash(CSymbolObject *self)
 /*****************************************************************************/
 {
+	if (self->m_basic.get() == NULL)
+	{
+		PyErr_SetString(SymbolicsError, "Internal Error: Object has not been initialised!");
+		return -1;
+	}
 	return self->m_basic->getHash();
 }
 /*****************************************************************************/
-- 
2.43.0


From cc4a722dc01bca600d8f97744c59fc6335c65cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 073/126] fix: symbols of the Python binding are compared by
 value

---
 symbolics/wrapper/CBasic.cpp  |  7 +++++++
 symbolics/wrapper/CSymbol.cpp | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index b918fdb..e16d900 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -912,6 +912,13 @@ static PyObject* CBasic_cmp(CBasicObject *self, PyObject *other, int op)
 {
 	try
 	{
+		// Mit etwas anderem kann nicht verglichen werden
+		if (!PyObject_TypeCheck(other, &CBasicObjectType) && !PyLong_Check(other) && !PyFloat_Check(other))
+		{
+			Py_IncRef(Py_NotImplemented);
+			return Py_NotImplemented;
+		}
+
 		// lhs und rhs holen
 		BasicPtr lhs( getBasic(reinterpret_cast<PyObject*>(self)) );
 		BasicPtr rhs( getBasic(other) );
diff --git a/symbolics/wrapper/CSymbol.cpp b/symbolics/wrapper/CSymbol.cpp
index d92a881..47041c6 100644
--- a/symbolics/wrapper/CSymbol.cpp
+++ b/symbolics/wrapper/CSymbol.cpp
@@ -12,6 +12,7 @@ static int CSymbol_init(CSymbolObject *self, PyObject *args, PyObject *kwds);
 static void CSymbol_del(CSymbolObject *self);
 
 static long CSymbol_hash(CSymbolObject *self);
+static PyObject* CSymbol_cmp(CSymbolObject *self, PyObject *other, int op);
 
 // Dokumentation
 static char CSymbol_doc[] = 
@@ -42,7 +43,7 @@ PyTypeObject Symbolics::Python::CSymbolObjectType = {
     CSymbol_doc,                /* tp_doc            */
     0,                            /* tp_traverse       */
     0,                            /* tp_clear          */
-    0,                            /* tp_richcompare    */
+    (richcmpfunc)CSymbol_cmp,     /* tp_richcompare    */
     0,                            /* tp_weaklistoffset */
     0,                            /* tp_iter           */
     0,                            /* tp_iternext       */
@@ -140,3 +141,12 @@ static long CSymbol_hash(CSymbolObject *self)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+// Ein Typ mit eigenem Hash erbt den Vergleich nicht
+static PyObject* CSymbol_cmp(CSymbolObject *self, PyObject *other, int op)
+/*****************************************************************************/
+{
+	return CBasicObjectType.tp_richcompare(self, other, op);
+}
+/*****************************************************************************/
+
-- 
2.43.0


From ead338e9c4cac8850a628ddc6d604af0dee8dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 074/126] fix: scalar of a scalar of the Python binding can be
 evaluated

---
 symbolics/functions/Scalar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolics/functions/Scalar.cpp b/symbolics/functions/Scalar.cpp
index b75b260..2ec7946 100644
--- a/symbolics/functions/Scalar.cpp
+++ b/symbolics/functions/Scalar.cpp
@@ -105,6 +105,10 @@ BasicPtr Scalar::New(BasicPtr const& arg)
     // checks the argument
     BasicPtr scalar(new Scalar(arg));
 
+    // Skalar, dann nichts tun
+    if (arg->is_Scalar())
+        return arg;
+
     // if constant move sign into value
     switch (arg->getType())
     {
-- 
2.43.0


From a6d0156c7d764917e17247e60111f0b5514f94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 075/126] fix: optimising a graph does not replace functions of
 other graphs and of the caller

---
 symbolics/graph/PreOptimisation.cpp       | 110 ++++++++++++++++++++--
 symbolics/graph/include/PreOptimisation.h |  65 ++++---------
 2 files changed, 123 insertions(+), 52 deletions(-)

diff --git a/symbolics/graph/PreOptimisation.cpp b/symbolics/graph/PreOptimisation.cpp
index 7953988..bf58d60 100644
--- a/symbolics/graph/PreOptimisation.cpp
+++ b/symbolics/graph/PreOptimisation.cpp
@@ -25,19 +25,115 @@ void PreOptimisation::optimize()
 /*****************************************************************************/
 {
   // Acos
-  optimizeUnaryFunctions<Acos>(Type_Acos);
+  optimizeUnaryFunctions(Type_Acos);
   // Asin
-  optimizeUnaryFunctions<Asin>(Type_Asin);
+  optimizeUnaryFunctions(Type_Asin);
   // Atan
-  optimizeUnaryFunctions<Atan>(Type_Atan);
+  optimizeUnaryFunctions(Type_Atan);
   // Atan2
-  optimizeUnaryFunctions<Atan2>(Type_Atan2);
+  optimizeUnaryFunctions(Type_Atan2);
   // Cos
-  optimizeUnaryFunctions<Cos>(Type_Cos);
+  optimizeUnaryFunctions(Type_Cos);
   // Sin
-  optimizeUnaryFunctions<Sin>(Type_Sin);
+  optimizeUnaryFunctions(Type_Sin);
   // Tan
-  optimizeUnaryFunctions<Tan>(Type_Tan);
+  optimizeUnaryFunctions(Type_Tan);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool PreOptimisation::FunctionCounter::process_Arg(BasicPtr const &p, bool &stop)
+/*****************************************************************************/
+{
+  if (p->getType() == m_type)
+    functions[p]++;
+  return true;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool PreOptimisation::FunctionCounter::usesRepeated(BasicPtr const &p)
+/*****************************************************************************/
+{
+  FunctionCounter args(m_type);
+  for (size_t i=0;i<p->getArgsSize();++i)
+    p->getArg(i)->scanExp(args);
+  for (std::map<BasicPtr,size_t>::iterator ii=args.functions.begin();ii!=args.functions.end();++ii)
+  {
+    if (functions[ii->first] > 1)
+      return true;
+  }
+  return false;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr PreOptimisation::FunctionReplacer::process_Arg(BasicPtr const &p)
+/*****************************************************************************/
+{
+  std::map<BasicPtr,BasicPtr>::iterator ii = symbols.find(p);
+  if (ii != symbols.end())
+    return ii->second;
+  return p;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void PreOptimisation::optimizeUnaryFunctions(Basic_Type type )
+/*****************************************************************************/
+{
+  size_t n=0;
+  FunctionReplacer replacer;
+  do
+  {
+    replacer.symbols.clear();
+    FunctionCounter counter(type);
+    EquationPtrSet equations = m_eqsys->getEquations();
+    for (EquationPtrSet::iterator ie=equations.begin();ie!=equations.end();++ie)
+    {
+      for (size_t i=0;i<(*ie)->getLhsSize();++i)
+        (*ie)->getLhs(i)->scanExp(counter);
+      for (size_t i=0;i<(*ie)->getRhsSize();++i)
+        (*ie)->getRhs(i)->scanExp(counter);
+    }
+
+    // inner functions first
+    std::map<BasicPtr,size_t> functions = counter.functions;
+    for (std::map<BasicPtr,size_t>::iterator ii=functions.begin();ii!=functions.end();++ii)
+    {
+      if ((ii->second < 2) || counter.usesRepeated(ii->first))
+        continue;
+      std::string name = Basic_TypetoStr(type);
+      if (ii->first->getArg(0)->getType() == Type_Symbol)
+        name += ii->first->getArg(0)->toString();
+      else
+        name += str(n++);
+      // check for free name, atan2 is the name of a function
+      while (m_eqsys->hasSymbol(name) || name == Basic_TypetoStr(Type_Atan2))
+        name += str(n++);
+      SymbolPtr sp(new Symbol(name,ii->first->getShape()));
+      m_eqsys->addSymbol(sp);
+      replacer.symbols[ii->first] = sp;
+    }
+
+    // replace
+    for (EquationPtrSet::iterator ie=equations.begin();ie!=equations.end();++ie)
+    {
+      FunctionCounter used(type);
+      for (size_t i=0;i<(*ie)->getLhsSize();++i)
+        (*ie)->getLhs(i)->scanExp(used);
+      for (size_t i=0;i<(*ie)->getRhsSize();++i)
+        (*ie)->getRhs(i)->scanExp(used);
+      bool replace = false;
+      for (std::map<BasicPtr,BasicPtr>::iterator ii=replacer.symbols.begin();ii!=replacer.symbols.end();++ii)
+        replace = replace || (used.functions.find(ii->first) != used.functions.end());
+      if (replace)
+        (*ie)->iterateEquation(replacer);
+    }
+    for (std::map<BasicPtr,BasicPtr>::iterator ii=replacer.symbols.begin();ii!=replacer.symbols.end();++ii)
+      m_eqsys->addEquation(ii->second,ii->first,false);
+  }
+  while (!replacer.symbols.empty());
 }
 /*****************************************************************************/
 
diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index d104b02..b1b4378 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -32,54 +32,29 @@ namespace Symbolics
 
         private:
 
-            template< typename Ty >
-            void optimizeUnaryFunctions(Basic_Type type )
+            // counts the functions of one type
+            class FunctionCounter: public Basic::Scanner
             {
-              std::map<BasicPtr,size_t> repl;
-              std::map<BasicPtr,size_t>::iterator ii;
-              // 
-              ScopePtr scope = Ty::getScope();
-              List *list = scope->first;
-              while (list != NULL)
-              {
-                // cast
-                Ty *unary = List::getAsPtr<Ty>(list);
-                BasicPtr p(unary);
-                ii = repl.find(p);
-                if (ii != repl.end())
-                {
-                  ii->second = ii->second + p->getParentsSize();
-                  p->subs(ii->first);
-                }
-                else
-                {
-                  repl[p] = p->getParentsSize();
-                }
-                // next
-                list = list->getRigth();
-              }
+            public:
+              FunctionCounter(Basic_Type type): m_type(type) {;}
+              bool process_Arg(BasicPtr const &p, bool &stop);
+              // does p use a function, which is used several times
+              bool usesRepeated(BasicPtr const &p);
+              std::map<BasicPtr,size_t> functions;
+            private:
+              Basic_Type m_type;
+            };
 
-              std::map<BasicPtr,size_t>::iterator re = repl.end();
-              size_t n=0;
-              for (ii =repl.begin(); ii != re;++ii)
-              {
-                if (ii->second > 1)
-                {
-                  std::string name = Basic_TypetoStr(type);
-                  if (ii->first->getArg(0)->getType() == Type_Symbol)
-                    name += ii->first->getArg(0)->toString();
-                  else
-                    name += str(n++);
-                  // check for free name, atan2 is the name of a function
-                  while (m_eqsys->hasSymbol(name) || name == Basic_TypetoStr(Type_Atan2))
-                    name += str(n++);
-                  SymbolPtr sp(new Symbol(name,ii->first->getShape()));
-                  m_eqsys->addSymbol(sp);
-                  ii->first->subs(sp);
-                  m_eqsys->addEquation(sp,ii->first,false);
-                }
-              }
+            // replaces functions by symbols
+            class FunctionReplacer: public Basic::Iterator
+            {
+            public:
+              BasicPtr process_Arg(BasicPtr const &p);
+              std::map<BasicPtr,BasicPtr> symbols;
             };
+
+            // only the equations of this system are changed, other graphs may contain the same functions
+            void optimizeUnaryFunctions(Basic_Type type );
             std::string& Basic_TypetoStr(Basic_Type const& t);
         };
 /*****************************************************************************/
-- 
2.43.0


From e558872742a6de9cd5ce4408c9294144aa374aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 076/126] fix: skew_numpy works with the elements of the vector
 and refuses other types

---
 pymbs/common/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymbs/common/functions.py b/pymbs/common/functions.py
index d830479..68581f4 100644
--- a/pymbs/common/functions.py
+++ b/pymbs/common/functions.py
@@ -290,13 +290,15 @@ def skew_numpy(arg):
     numpy matrices only
     """
     if isinstance(arg, np.matrix):
-        v = arg
-        assert v.shape == (3, 1)
+        assert arg.shape == (3, 1)
+        v = arg.A1
 
         return np.matrix([[0, -v[2], v[1]],
                           [v[2], 0, -v[0]],
                           [-v[1], v[0], 0]])
 
+    raise TypeError(f'skew_numpy is not defined for {arg} ({arg.__class__})')
+
 
 def scalar_if_possible(arg):
     """
-- 
2.43.0


From 8081a2711d5c9ff35c109a9ddd5f308a31a3c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 077/126] fix: numbers are written with as many digits as they
 need

---
 symbolics/str.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/symbolics/str.cpp b/symbolics/str.cpp
index 445f3d2..f40f946 100644
--- a/symbolics/str.cpp
+++ b/symbolics/str.cpp
@@ -1,4 +1,5 @@
 #include "str.h"
+#include <cstdlib>
 #include <iomanip>
 #include <limits>
 
@@ -16,9 +17,17 @@ std::string str(  bool b )
 std::string str(  double d )
 /*****************************************************************************/
 {
-    std::stringstream s;
-    s << std::setprecision(std::numeric_limits<double>::digits10) << d;
-    return s.str();
+    // as many digits as are needed to read the same number again
+    std::string text;
+    for (int digits = std::numeric_limits<double>::digits10; digits <= std::numeric_limits<double>::max_digits10; ++digits)
+    {
+        std::stringstream s;
+        s << std::setprecision(digits) << d;
+        text = s.str();
+        if (std::strtod(text.c_str(), NULL) == d)
+            break;
+    }
+    return text;
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 380fd9444eb9d5db6c68df046385916c655b2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 078/126] fix: addParam accepts a matrix of default values

---
 pymbs/input/mbs_system.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 30b3000..a0ffaee 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -774,30 +774,30 @@ class MbsSystem(Body):
         # End of <if isinstance(defaultValue, (list, tuple)):>
 
         if isinstance(defaultValue, symbolics.Matrix):
-            nr, nc = defaultValue.shape
+            shape = defaultValue.shape()
 
-            if defaultValue.shape == (3,3):
+            if shape == (3,3):
                 suffixes=["xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"]
-            elif defaultValue.shape == (3,1):
+            elif shape in ((3,), (3,1)):
                 suffixes=["x", "y", "z"]
+            elif len(shape) == 1:
+                suffixes=["_%d" % a for a in range(shape[0])]
             else:
                 # create the crossproduct of the two index-sets:
-                suffixes=["__%d_%d" % (a,b) for a in range(nr) for b in range(nc)]
+                suffixes=["__%d_%d" % (a,b) for a in range(shape[0]) for b in range(shape[1])]
 
 
-            p = symbolics.zeros((nr,nc))
-            defaultValueList = defaultValue[:]# matrix to list
-            for v, suffix, idx in zip(defaultValueList,
-                                         suffixes, list(range(nr*nc))):
+            p = symbolics.zeros(shape)
+            for idx, suffix in enumerate(suffixes):
 
                 partName = "%s__%s" % (name, suffix)
                 partSymbolString = "%s_%s" % (symbol_str, suffix)
 
                 # create scalar Parameters for each component
                 # (the matrix p can still be accessed by a single index)
-                p[idx]=self.self.addParam(name=partName, symbol_str=partSymbolString, defaultValue=v)
+                p[idx]=self.addParam(name=partName, symbol_str=partSymbolString, defaultValue=defaultValue[idx])
 
-            # return the 3x3 matrix
+            # return the matrix
             return p
         # End of: if isinstance(defaultValue, Symbolics.Matrix):
 
-- 
2.43.0


From 50b3f322e702aa37906551295aca411a83846134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 079/126] fix: a positive parameter is refused a negative
 default value and vice versa

---
 pymbs/input/mbs_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index a0ffaee..a54e45b 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -806,10 +806,10 @@ class MbsSystem(Body):
                 raise AttributeError('Parameter "%s" cannot be positive and negative at the same time'%name)
 
             if ((positive==True) and (defaultValue < 0)):
-                raise AttributeError('Parameter "%s" cannot be positive, if a default ' + \
+                raise AttributeError('Parameter "%s" cannot be positive, if a default '
                                      'value of %f has been specified!'%(name,defaultValue))
             if ((negative==True) and (defaultValue > 0)):
-                raise AttributeError('Parameter "%s" cannot be negative, if a default ' + \
+                raise AttributeError('Parameter "%s" cannot be negative, if a default '
                                      'value of %f has been specified!'%(name,defaultValue))
         except TypeError:
             pass
-- 
2.43.0


From 180db111033364c6d279e8723e309d3f6419fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 080/126] fix: addJoint leaves the list of degrees of freedom
 of the caller alone

---
 pymbs/input/mbs_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index a54e45b..03699f6 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -373,6 +373,7 @@ class MbsSystem(Body):
             dofList = []
         assert isinstance(dofList, list)
         assert 0 <= len(dofList) <=6
+        dofList = list(dofList)     # the list of the caller is left alone
 
         if startVals is None:
             startVals=[0 for dof in dofList]
-- 
2.43.0


From 9c224f91af53daa4a9fbb4df9d330887a0411431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 081/126] fix: addEquation leaves the list of symbols of the
 caller alone

---
 pymbs/symbolics/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/symbolics/graph.py b/pymbs/symbolics/graph.py
index ea0c9be..4af565b 100644
--- a/pymbs/symbolics/graph.py
+++ b/pymbs/symbolics/graph.py
@@ -119,7 +119,8 @@ class Assignment(object):
 
         # is it a list?
         if (isinstance(lhs, list)):
-            # create variables if neccessary
+            # create variables if neccessary (the list of the caller is left alone)
+            lhs = list(lhs)
             for i in range(len(lhs)):
                 if (isinstance(lhs[i], str)):
                     lhs[i] = graph.addVariable(name=lhs[i], 
-- 
2.43.0


From c5226af874e74201d127d1bbe79b360530a9fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 082/126] fix: Python code of systems with a single scalar
 state runs

---
 symbolics/writer/PythonWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index a3fcbd6..ee5848a 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -202,10 +202,10 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << std::endl;
 
 	// write return statement
-	f << "    return " << "asarray(vstack((";
+	f << "    return " << "asarray(vstack([";
 	for (Graph::VariableVec::iterator it=states.begin();it!=states.end();++it)
 		f << (it==states.begin() ? "" : ", " ) << "der_" << m_p->print(*it);
-	f << "))).ravel()" << std::endl;
+	f << "])).ravel()" << std::endl;
 
 	// close file
 	f.close();
-- 
2.43.0


From 884d2a50aba0045b77fa443782c805d936882839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 083/126] fix: MATLAB and C# code defines the constants before
 the parameters that use them

---
 symbolics/writer/CSharpWriter.cpp | 30 ++++++++++-----------
 symbolics/writer/MatlabWriter.cpp | 44 +++++++++++++++----------------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index a46e239..97172bd 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -121,16 +121,16 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
 	}
 	f << std::endl; 
 
-	f << "    /* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "    /* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "    /* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "    /* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -278,16 +278,16 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "    /* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "    /* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "    /* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "    /* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -380,16 +380,16 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 72fd760..6dbf6b0 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -192,16 +192,16 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
         f << "	" << m_p->print(*it) << " = I." << m_p->print(*it) << "; " << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
-	f << "% Parameters" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
-	f << std::endl;
-
 	f << "% Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "	" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
+	f << "% Parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
+	f << std::endl;
+
 	f << "% Equations" << std::endl;
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
 
@@ -262,17 +262,17 @@ double MatlabWriter::generateSymDerState(Graph::Graph& g)
         f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
-	f << "% Parameters" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it) {
+	f << "% Constants" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-		f << "	%" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+        f << "	% " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
 	}
 	f << std::endl;
 
-	f << "% Constants" << std::endl;
-	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it) {
+	f << "% Parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-        f << "	% " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+		f << "	%" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
 	}
 	f << std::endl;
 
@@ -384,16 +384,16 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
         f << "	" << m_p->print(*it) << " = I." << m_p->print(*it) << "; " << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
-	f << "% Parameters" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
-	f << std::endl;
-
 	f << "% Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "	" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
+	f << "% Parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
+	f << std::endl;
+
 	f << "% Equations and Sensors" << std::endl;
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
 
@@ -458,17 +458,17 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
         f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
-	f << "% Parameters" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it) {
+	f << "% Constants" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-		f << "	%" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+        f << "	% " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
 	}
 	f << std::endl;
 
-	f << "% Constants" << std::endl;
-	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it) {
+	f << "% Parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-        f << "	% " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+		f << "	%" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From e064d5ea2caa0e6292683edb11ee6543bea96a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 084/126] fix: the optimisation leaves the default values of
 parameters alone

---
 symbolics/graph/PreOptimisation.cpp       | 26 ++++++++++++++++++++++-
 symbolics/graph/include/PreOptimisation.h |  2 ++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/symbolics/graph/PreOptimisation.cpp b/symbolics/graph/PreOptimisation.cpp
index bf58d60..bb23e61 100644
--- a/symbolics/graph/PreOptimisation.cpp
+++ b/symbolics/graph/PreOptimisation.cpp
@@ -78,6 +78,23 @@ BasicPtr PreOptimisation::FunctionReplacer::process_Arg(BasicPtr const &p)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+bool PreOptimisation::definesParameter(EquationPtr const &equation)
+/*****************************************************************************/
+{
+  for (size_t i=0;i<equation->getLhsSize();++i)
+  {
+    BasicPtr lhs = equation->getLhs(i);
+    if (lhs->getType() == Type_Element)
+      lhs = lhs->getArg(0);
+    if ((lhs->getType() == Type_Symbol)
+      && (Util::getAsPtr<Symbol>(lhs)->getKind() & (PARAMETER | CONSTANT)))
+      return true;
+  }
+  return false;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 void PreOptimisation::optimizeUnaryFunctions(Basic_Type type )
 /*****************************************************************************/
@@ -88,7 +105,14 @@ void PreOptimisation::optimizeUnaryFunctions(Basic_Type type )
   {
     replacer.symbols.clear();
     FunctionCounter counter(type);
-    EquationPtrSet equations = m_eqsys->getEquations();
+    EquationPtrSet equations;
+    EquationPtrSet all = m_eqsys->getEquations();
+    for (EquationPtrSet::iterator ie=all.begin();ie!=all.end();++ie)
+    {
+      // parameters and constants are written before all other variables
+      if (!definesParameter(*ie))
+        equations.insert(*ie);
+    }
     for (EquationPtrSet::iterator ie=equations.begin();ie!=equations.end();++ie)
     {
       for (size_t i=0;i<(*ie)->getLhsSize();++i)
diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index b1b4378..f6f0979 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -53,6 +53,8 @@ namespace Symbolics
               std::map<BasicPtr,BasicPtr> symbols;
             };
 
+            // is the equation the default value of a parameter or constant
+            bool definesParameter(EquationPtr const &equation);
             // only the equations of this system are changed, other graphs may contain the same functions
             void optimizeUnaryFunctions(Basic_Type type );
             std::string& Basic_TypetoStr(Basic_Type const& t);
-- 
2.43.0


From d389f42285dcc90da3202152334fd570abaa7967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 085/126] fix: the order of the generated code does not depend
 on memory addresses

---
 symbolics/Symbol.cpp               | 5 +++--
 symbolics/graph/Equation.cpp       | 6 ++++--
 symbolics/graph/Node.cpp           | 4 +++-
 symbolics/graph/include/Equation.h | 8 ++++++++
 symbolics/graph/include/Node.h     | 8 ++++++++
 symbolics/include/Symbol.h         | 7 +++++++
 6 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/symbolics/Symbol.cpp b/symbolics/Symbol.cpp
index 6ec8bad..4f761da 100644
--- a/symbolics/Symbol.cpp
+++ b/symbolics/Symbol.cpp
@@ -15,13 +15,14 @@ using namespace Symbolics;
 std::set<std::string> Symbol::symbol_names;
 #endif
 BasicPtr Symbol::getArgres;
+size_t Symbol::symbol_count = 0;
 /*****************************************************************************/
 
 /*****************************************************************************/
 Symbol::Symbol( std::string const& name, 
                 Shape const& shape, 
                 Symbol_Kind category):
-Basic(Type_Symbol,shape), m_name(name), m_kind(category)
+Basic(Type_Symbol,shape), m_name(name), m_number(symbol_count++), m_kind(category)
 /*****************************************************************************/
 {
   m_statekind=ALL;
@@ -39,7 +40,7 @@ Basic(Type_Symbol,shape), m_name(name), m_kind(category)
 
 /*****************************************************************************/
 Symbol::Symbol( std::string const& name,  Symbol_Kind category):
-Basic(Type_Symbol), m_name(name), m_kind(category)
+Basic(Type_Symbol), m_name(name), m_number(symbol_count++), m_kind(category)
 /*****************************************************************************/
 {
   m_statekind=ALL;
diff --git a/symbolics/graph/Equation.cpp b/symbolics/graph/Equation.cpp
index e408992..3225767 100644
--- a/symbolics/graph/Equation.cpp
+++ b/symbolics/graph/Equation.cpp
@@ -5,11 +5,13 @@
 using namespace Symbolics;
 using namespace Graph;
 
+size_t Equation::m_count = 0;
+
 /*****************************************************************************/
 Equation::Equation(SymbolPtrElemMap const& SolveFor,
   BasicPtr const& Lhs, 
   BasicPtr const& Rhs, bool implizit):
-m_implizit(implizit),m_category(0),m_numElem(0),m_refCount(0)
+m_implizit(implizit),m_category(0),m_numElem(0),m_number(m_count++),m_refCount(0)
 /*****************************************************************************/
 {
   setSolveFor(SolveFor);
@@ -24,7 +26,7 @@ m_implizit(implizit),m_category(0),m_numElem(0),m_refCount(0)
 /*****************************************************************************/
 Equation::Equation(SymbolPtrElemMap const& SolveFor, 
   BasicPtrVec const&  Lhs, BasicPtrVec const& Rhs, bool implizit):
-m_implizit(implizit),m_category(0),m_numElem(0),m_refCount(0)
+m_implizit(implizit),m_category(0),m_numElem(0),m_number(m_count++),m_refCount(0)
 /*****************************************************************************/
 {
   setSolveFor(SolveFor);
diff --git a/symbolics/graph/Node.cpp b/symbolics/graph/Node.cpp
index 5696968..bc703fa 100644
--- a/symbolics/graph/Node.cpp
+++ b/symbolics/graph/Node.cpp
@@ -5,9 +5,11 @@
 using namespace Symbolics;
 using namespace Graph;
 
+size_t Node::m_count = 0;
+
 /*****************************************************************************/
 Node::Node(EquationPtr eqn,SymbolPtr time):
-m_time(time),m_eqn(eqn),visited(false),m_refCount(0),m_subsed(false)
+m_time(time),m_eqn(eqn),visited(false),m_number(m_count++),m_refCount(0),m_subsed(false)
 /*****************************************************************************/
 {
   setSolveFor(m_eqn->getSolveFor());
diff --git a/symbolics/graph/include/Equation.h b/symbolics/graph/include/Equation.h
index 605ab12..a197534 100644
--- a/symbolics/graph/include/Equation.h
+++ b/symbolics/graph/include/Equation.h
@@ -56,6 +56,8 @@ namespace Symbolics
 
     typedef boost::intrusive_ptr<const Equation> ConstEquationPtr;
     typedef boost::intrusive_ptr<Equation> EquationPtr;
+    // order of sets and maps of equations, must not depend on the addresses
+    bool operator<(EquationPtr const& lhs, EquationPtr const& rhs);
     typedef std::set<EquationPtr> EquationPtrSet;
     typedef std::vector<EquationPtr> EquationPtrVec;
 
@@ -170,6 +172,10 @@ namespace Symbolics
       };
 
     private:
+      // Number, in the order of construction
+      size_t m_number;
+      static size_t m_count;
+      friend bool operator<(EquationPtr const& lhs, EquationPtr const& rhs);
       // Boost Intrusive Ptr
       unsigned int m_refCount;
       // friend
@@ -177,6 +183,8 @@ namespace Symbolics
       friend void ::boost::intrusive_ptr_release( const Equation* p);
     };
     /*****************************************************************************/
+    inline bool operator<(EquationPtr const& lhs, EquationPtr const& rhs) { return lhs->m_number < rhs->m_number; };
+    /*****************************************************************************/
   };
 
 };
diff --git a/symbolics/graph/include/Node.h b/symbolics/graph/include/Node.h
index 2573f5e..db43242 100644
--- a/symbolics/graph/include/Node.h
+++ b/symbolics/graph/include/Node.h
@@ -36,6 +36,8 @@ namespace Symbolics
 
     typedef boost::intrusive_ptr<const Node> ConstNodePtr;
     typedef boost::intrusive_ptr<Node> NodePtr;
+    // order of sets and maps of nodes, must not depend on the addresses
+    bool operator<(NodePtr const& lhs, NodePtr const& rhs);
     typedef std::set<NodePtr> NodePtrSet;
     typedef std::vector<NodePtr> NodeVec;
 
@@ -137,6 +139,10 @@ namespace Symbolics
       void setSolveFor(SymbolPtrElemMap& solveFor);
 
     private:
+      // Number, in the order of construction
+      size_t m_number;
+      static size_t m_count;
+      friend bool operator<(NodePtr const& lhs, NodePtr const& rhs);
       // Boost Intrusive Ptr
       unsigned int m_refCount;
       // friend
@@ -144,6 +150,8 @@ namespace Symbolics
       friend void ::boost::intrusive_ptr_release( const Node* p);
     };
     /*****************************************************************************/
+    inline bool operator<(NodePtr const& lhs, NodePtr const& rhs) { return lhs->m_number < rhs->m_number; };
+    /*****************************************************************************/
   };
 
 };
diff --git a/symbolics/include/Symbol.h b/symbolics/include/Symbol.h
index d1f59a7..e860c06 100644
--- a/symbolics/include/Symbol.h
+++ b/symbolics/include/Symbol.h
@@ -58,6 +58,8 @@ namespace Symbolics
         // toString
         std::string toString() const ; 
         inline std::string const& getName() const {return m_name;} ;
+        // number of the symbol, in the order of construction
+        inline size_t getNumber() const {return m_number;} ;
 
         // Vereinfachen, wenn unver�ndert, dann NULL
         inline BasicPtr simplify() { return BasicPtr(this); };
@@ -102,6 +104,9 @@ namespace Symbolics
     protected:
         // Name
         std::string m_name;
+        // Number
+        size_t m_number;
+        static size_t symbol_count;
         // Kind
         Symbol_Kind m_kind;
         // State
@@ -121,6 +126,8 @@ namespace Symbolics
 /*****************************************************************************/
     typedef boost::intrusive_ptr<const Symbol> ConstSymbolPtr;
     typedef boost::intrusive_ptr<Symbol> SymbolPtr;
+    // order of sets and maps of symbols, must not depend on the addresses
+    inline bool operator<(SymbolPtr const& lhs, SymbolPtr const& rhs) { return lhs->getNumber() < rhs->getNumber(); };
     typedef std::vector<SymbolPtr> SymbolPtrVec;
     typedef std::set<SymbolPtr> SymbolPtrSet;
     typedef std::map< SymbolPtr, size_t > SymbolSizeTMap;
-- 
2.43.0


From 30590443e3eb2b3596fbd0d0875260398c09ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 086/126] fix: C and C# code generation leaves the graph as it
 is

---
 symbolics/Symbol.cpp               | 12 ++++++++++++
 symbolics/graph/EquationSystem.cpp | 29 +++++++++++++++++++++--------
 symbolics/graph/Graph.cpp          | 25 ++++++++++++++++++++++++-
 symbolics/graph/include/Graph.h    |  9 ++++++++-
 symbolics/include/Symbol.h         |  3 +++
 symbolics/writer/Writer.cpp        | 29 +++++++++++++++++++----------
 6 files changed, 87 insertions(+), 20 deletions(-)

diff --git a/symbolics/Symbol.cpp b/symbolics/Symbol.cpp
index 4f761da..dcd6d3b 100644
--- a/symbolics/Symbol.cpp
+++ b/symbolics/Symbol.cpp
@@ -330,6 +330,18 @@ BasicPtr Symbol::der(BasicPtr const& symbol)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+Symbol* Symbol::copy() const
+/*****************************************************************************/
+{
+  Symbol *s = new Symbol(m_name,m_shape,m_kind);
+  s->m_statekind = m_statekind;
+  for (size_t i=0;i<m_shape.getNumEl();i++)
+    s->m_state[i] = m_state[i];
+  return s;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 Symbol* Symbol::getDerivative()
 /*****************************************************************************/
diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 12249fd..39384c1 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -517,14 +517,27 @@ EquationSystemPtr EquationSystem::makeScalar()
   // neuen Graphen Aufbauen
   EquationSystemPtr eqsys = new EquationSystem();
   BasicPtrMap symbolreplacemap;
-  // erst alle Variablen uebertragen 
+  // the new graph has symbols of its own: the optimisation replaces a symbol wherever it is used
+  SymbolMap copies;
   for (SymbolStartValueMap::iterator ii=m_symbolsvaluemap.begin();ii!=m_symbolsvaluemap.end();++ii)
   {
     SymbolPtr s = (*ii).first;
+    if (s->getUserData(ID_UD_STATE) != NULL)
+      continue;
+    SymbolPtr c = s->copy();
+    copies[s] = c;
+    SymbolPtr ds = static_cast<Symbol*>(s->getUserData(ID_UD_STATEDERIVATIVE));
+    if (ds.get() != NULL)
+      copies[ds] = c->getDerivative();
+  }
+  // erst alle Variablen uebertragen 
+  for (SymbolStartValueMap::iterator ii=m_symbolsvaluemap.begin();ii!=m_symbolsvaluemap.end();++ii)
+  {
+    SymbolPtr s = copies[(*ii).first];
     BasicPtr initval = (*ii).second;
-    std::string comment = m_symbolscommentmap[s];
-    s->setUserData(NULL,ID_UD_NODE);
+    std::string comment = m_symbolscommentmap[(*ii).first];
     eqsys->addSymbol_Internal(s,initval.get(),comment);
+    symbolreplacemap[(*ii).first] = BasicPtr(s);
 
     if (!s->is_Scalar())
     {
@@ -539,11 +552,13 @@ EquationSystemPtr EquationSystem::makeScalar()
           mat->set(i,j, Element::New(s,i,j));
         }
       }
-      symbolreplacemap[s] = BasicPtr(mat);
+      symbolreplacemap[(*ii).first] = BasicPtr(mat);
     }
   }
-  eqsys->m_states = m_states;
-  eqsys->m_derstates = m_derstates;
+  for (SymbolPtrElemMap::iterator ii=m_states.begin();ii!=m_states.end();++ii)
+    eqsys->m_states[copies[ii->first]] = ii->second;
+  for (SymbolPtrElemMap::iterator ii=m_derstates.begin();ii!=m_derstates.end();++ii)
+    eqsys->m_derstates[copies[ii->first]] = ii->second;
   /* 
     ToDo:
       alle Gleichungen durchlaufen und Funktionen solve(Das stirbt sowieso), inverse, unknown ersetzen mit neuer Variable
@@ -652,8 +667,6 @@ BasicPtr EquationSystem::SymbolRepl::process_Arg(BasicPtr const &p)
 {
   if (p->getType() == Type_Symbol)
   {
-    if (p->is_Scalar())
-      return p;
     BasicPtrMap::iterator ii = m_symbolmap.find(p);
     if (ii != m_symbolmap.end())
       return ii->second;
diff --git a/symbolics/graph/Graph.cpp b/symbolics/graph/Graph.cpp
index 5afc589..b70a9da 100644
--- a/symbolics/graph/Graph.cpp
+++ b/symbolics/graph/Graph.cpp
@@ -80,8 +80,31 @@ void Symbolics::Graph::Graph::makeScalar()
 /*****************************************************************************/
 {
   // neuen Graphen Aufbauen
-  eqsys = eqsys->makeScalar();
+  EquationSystemPtr scalar = eqsys->makeScalar();
+  // keep the current system and its graph
+  m_origEqsys = eqsys;
+  m_origSyshandler = m_syshandler;
+  m_origNodes.swap(m_nodes);
   m_nodes.clear();
+  eqsys = scalar;
+}
+/*****************************************************************************/
+
+
+/*****************************************************************************/
+void Symbolics::Graph::Graph::undoScalar()
+/*****************************************************************************/
+{
+  if (m_origEqsys.get() == NULL)
+    return;
+  for (size_t i=0;i<m_nodes.size();++i)
+    m_nodes[i]->clear();
+  eqsys = m_origEqsys;
+  m_syshandler = m_origSyshandler;
+  m_nodes.swap(m_origNodes);
+  m_origEqsys = EquationSystemPtr();
+  m_origSyshandler = SystemHandlerPtr();
+  m_origNodes.clear();
 }
 /*****************************************************************************/
 
diff --git a/symbolics/graph/include/Graph.h b/symbolics/graph/include/Graph.h
index e1e873b..cebf8ea 100644
--- a/symbolics/graph/include/Graph.h
+++ b/symbolics/graph/include/Graph.h
@@ -36,8 +36,10 @@ namespace Symbolics
             // throws: ExpressionSolveForError, SymbolAlreadySolvedInError, VarUnknownError
             void addExpression( BasicPtrVec const& solveFor, BasicPtrVec const& exp, bool implicit=false);
 
-            // scalar
+            // scalar, the graph has to be built again
             void makeScalar();
+            // goes back to the system and the graph before makeScalar
+            void undoScalar();
 
             // 
             double buildGraph(bool optimize);
@@ -73,6 +75,11 @@ namespace Symbolics
 
           NodeVec m_nodes;
 
+          // what makeScalar has replaced
+          EquationSystemPtr m_origEqsys;
+          SystemHandlerPtr m_origSyshandler;
+          NodeVec m_origNodes;
+
           typedef std::map<SymbolPtr, std::pair< size_t, SymbolPtr> > DerivativeOrderMap;
           DerivativeOrderMap m_derivativeOrder;
 
diff --git a/symbolics/include/Symbol.h b/symbolics/include/Symbol.h
index e860c06..157e429 100644
--- a/symbolics/include/Symbol.h
+++ b/symbolics/include/Symbol.h
@@ -79,6 +79,9 @@ namespace Symbolics
 
         Symbol* getDerivative();
 
+        // another symbol with the same name, shape, kind and states
+        Symbol* copy() const;
+
         inline SymbolElementKind stateKind() const { return m_statekind; };
         inline size_t is_State(size_t dim1, size_t dim2) const { return m_state[getIndex(dim1,dim2)]; };
 
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index 3c451ee..1dbd6a6 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -30,15 +30,6 @@ Writer::~Writer()
 double Writer::generateTarget(std::string name, std::string path, Graph::Graph& g, bool optimize)
 /*****************************************************************************/
 {
-    // make scalar = 
-    if (m_scalar)
-    {
-        g.makeScalar();
-
-        // build equations
-        g.buildGraph(optimize);
-    }
-
     for (std::string::iterator it = path.begin(); it != path.end(); ++it) //Backslashs in slashs wandeln.
         if (*it=='\\') 
             *it='/';
@@ -46,7 +37,25 @@ double Writer::generateTarget(std::string name, std::string path, Graph::Graph&
 
     m_name = name;
     // 
-    return generateTarget_Impl(g);
+    if (!m_scalar)
+        return generateTarget_Impl(g);
+
+    // the code is written for the scalar equations, the graph itself stays as it is
+    double t = 0;
+    g.makeScalar();
+    try
+    {
+        // build equations
+        g.buildGraph(optimize);
+        t = generateTarget_Impl(g);
+    }
+    catch (...)
+    {
+        g.undoScalar();
+        throw;
+    }
+    g.undoScalar();
+    return t;
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 5badf56a1e794b0f922706d61c4c82eafbf30aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 087/126] fix: simulate runs the model just written and reports
 a failed integration

---
 pymbs/input/mbs_system.py | 44 +++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 03699f6..1d23ca4 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -44,6 +44,8 @@ In the following the members of the module pymbs.Input are explained in more
 detail.
 '''
 
+import importlib
+import shutil
 import sys
 import tempfile
 
@@ -1847,20 +1849,38 @@ class MbsSystem(Body):
             modelname = 'pymbsModel'
 
         _Graph = self.graph
-        _Graph.writeCode('py', modelname, tempfile.gettempdir())
+        q0 = list(q0)
 
-        sys.path.insert(0, tempfile.gettempdir())
+        # Modules of the same name, e.g. of an earlier simulation, must not be
+        # taken for the one written here
+        modules = [modelname + s for s in ('_der_state', '_sensors')]
+        imported = dict((m, sys.modules.pop(m)) for m in modules
+                        if m in sys.modules)
+        path = list(sys.path)
+        tempdir = tempfile.mkdtemp(prefix='pymbs_')
 
         try:
-            der_state_file = __import__('%s_der_state'%modelname, globals(),
-                                        locals(), [])
-            mod_der_state = getattr(der_state_file, '%s_der_state'%modelname)
-        except:
-            print("state derivative file '%s_der_state.py' or "\
-                "needed function inside this file not found! Something went "\
-                "wrong during code generation.\n%s" \
-                % (modelname,sys.exc_info()), file=sys.stderr)
-            return
+            _Graph.writeCode('py', modelname, tempdir)
+            sys.path.insert(0, tempdir)
+            importlib.invalidate_caches()
+
+            try:
+                der_state_file = __import__('%s_der_state'%modelname, globals(),
+                                            locals(), [])
+                mod_der_state = getattr(der_state_file,
+                                        '%s_der_state'%modelname)
+            except:
+                print("state derivative file '%s_der_state.py' or "\
+                    "needed function inside this file not found! Something "\
+                    "went wrong during code generation.\n%s" \
+                    % (modelname,sys.exc_info()), file=sys.stderr)
+                return
+        finally:
+            sys.path[:] = path
+            for m in modules:
+                sys.modules.pop(m, None)
+            sys.modules.update(imported)
+            shutil.rmtree(tempdir, ignore_errors=True)
 
         qd0 = list(np.zeros(len(q0)))
         integrator = Integrator(mod_der_state, q0, qd0)
@@ -1868,6 +1888,8 @@ class MbsSystem(Body):
         values = np.array(q0 + qd0)
         while curr_time < t:
             q = integrator.step()
+            if not integrator.successful():
+                raise RuntimeError('simulation failed at t = %s' % integrator.t)
             curr_time = integrator.t
             values = np.vstack((values, q))
 
-- 
2.43.0


From 501f2835741102c8d132750bb07ca1e9b8642302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 088/126] fix: resetting the integrator keeps its tolerances

---
 pymbs/ui/integrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymbs/ui/integrator.py b/pymbs/ui/integrator.py
index 84e087c..0836a74 100644
--- a/pymbs/ui/integrator.py
+++ b/pymbs/ui/integrator.py
@@ -24,6 +24,8 @@ class Integrator(integrate.ode):
         self.y0 = list(y0)
         self.yd0 = list(yd0)
         self.init_vals = self.y0 + self.yd0
+        self.rtol = rtol
+        self.atol = atol
         self.set_integrator('lsoda', rtol=rtol, atol=atol)
         self.set_initial_value(self.init_vals)
         self.dt = dt
@@ -42,7 +44,8 @@ class Integrator(integrate.ode):
         """
         Reset the integrator to restart the simulation
         """
-        self.__init__(self.handle, self.y0, self.yd0, self.dt)
+        self.__init__(self.handle, self.y0, self.yd0, self.dt, self.rtol,
+                      self.atol)
 
 
     def step(self):
-- 
2.43.0


From 2da21490a246dfb68d8a9e405b9e271cb307fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 089/126] fix: the integrator returns states that later steps
 do not overwrite

---
 pymbs/ui/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/ui/integrator.py b/pymbs/ui/integrator.py
index 0836a74..4795e7b 100644
--- a/pymbs/ui/integrator.py
+++ b/pymbs/ui/integrator.py
@@ -56,4 +56,5 @@ class Integrator(integrate.ode):
         time t + dt.
         """
         self.integrate(self.t + self.dt)
-        return self.y
+        # scipy goes on working on its array
+        return self.y.copy()
-- 
2.43.0


From d9b5370123d8ae32873918bafb5cad5895e51802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 090/126] fix: the explicit generator defines the states with
 kinematicsOnly

---
 pymbs/processing/generator_explicit.py | 28 +++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 656588f..7ffe5e9 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -42,6 +42,7 @@ class Generator_Explicit(Generator):
 
         if (self.kinematicsOnly):
             self.handleLoops(graph)
+            self.defineStates(graph, VarKind.Input)
         else:
             # Obtain Equations
             print(self.q, self.q.__class__)
@@ -287,12 +288,7 @@ class Generator_Explicit(Generator):
         f_red = simple(f_red)
 
         # Define State variables
-        q = graph.addVariable(name='q', shape=self.reduce_shape( self.q.shape() ), initialValue=scalar_if_possible(self.q0) )
-        qd = graph.addVariable(name='qd', shape=self.reduce_shape( self.qd.shape() ), initialValue=scalar_if_possible(self.qd0) )
-        qdd = graph.addVariable(name='qdd', shape=self.reduce_shape( self.qdd.shape() ) )
-        graph.addEquation(self.state.q, q)
-        graph.addEquation(self.state.qd, qd)
-        graph.addEquation(self.state.qdd, qdd)
+        qdd = self.defineStates(graph)
 
         # Handle Loops
         if (len(self.loops) > 0):
@@ -321,7 +317,25 @@ class Generator_Explicit(Generator):
         else:
             der_qd = graph.addEquation(qdd, (f_-h_)/M_, varKind = VarKind.Der_State)
 
+        self.handleConstraints(graph)
+
+
+    def defineStates(self, graph, varKind=None):
+        '''
+        Define the vectors q, qd and qdd; qdd is an input if there are no
+        equations of motion (kinematicsOnly)
+        '''
+
+        kwargs = {} if varKind is None else {'varKind': varKind}
+
+        q = graph.addVariable(name='q', shape=self.reduce_shape( self.q.shape() ), initialValue=scalar_if_possible(self.q0) )
+        qd = graph.addVariable(name='qd', shape=self.reduce_shape( self.qd.shape() ), initialValue=scalar_if_possible(self.qd0) )
+        qdd = graph.addVariable(name='qdd', shape=self.reduce_shape( self.qdd.shape() ), **kwargs )
+        graph.addEquation(self.state.q, q)
+        graph.addEquation(self.state.qd, qd)
+        graph.addEquation(self.state.qdd, qdd)
+
         graph.addEquation(der(q), qd)
         graph.addEquation(der(qd), qdd)
 
-        self.handleConstraints(graph)
+        return qdd
-- 
2.43.0


From c21b46f1d11ca064a6d4ee4df02040ec13c56dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 091/126] fix: sliders of the viewer start at the initial
 coordinates

---
 pymbs/ui/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index c317a49..5af8b59 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -829,7 +829,7 @@ class Gui(QMainWindow, pymbsMainWindow):
 
             init = float(str(initVals[i]))
             slider.setInitVal(init)
-            slider.slider.setValue(int(init))  # TODO was float, requires int now
+            slider.slider.setValue(slider.initVal)
 
             self.kintestSliderGroupLayout.addWidget(slider)
             self.sliders.append(slider)
-- 
2.43.0


From 6af8a20151c533f6c9958aa2ba34bfb8621179eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 092/126] fix: C and C# code generation for an equation of a
 derivative whose variable is not in the graph

---
 symbolics/graph/EquationSystem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 39384c1..68c9137 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -530,6 +530,13 @@ EquationSystemPtr EquationSystem::makeScalar()
     if (ds.get() != NULL)
       copies[ds] = c->getDerivative();
   }
+  // a derivative whose variable is not part of this system is kept
+  for (SymbolStartValueMap::iterator ii=m_symbolsvaluemap.begin();ii!=m_symbolsvaluemap.end();++ii)
+    copies.insert(SymbolMap::value_type(ii->first,ii->first));
+  for (SymbolPtrElemMap::iterator ii=m_states.begin();ii!=m_states.end();++ii)
+    copies.insert(SymbolMap::value_type(ii->first,ii->first));
+  for (SymbolPtrElemMap::iterator ii=m_derstates.begin();ii!=m_derstates.end();++ii)
+    copies.insert(SymbolMap::value_type(ii->first,ii->first));
   // erst alle Variablen uebertragen 
   for (SymbolStartValueMap::iterator ii=m_symbolsvaluemap.begin();ii!=m_symbolsvaluemap.end();++ii)
   {
-- 
2.43.0


From 4596b745bb324d2035626731dd1537190f8147c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 093/126] fix: addFrame refused because of its name left the
 frame in the list of the parent

---
 pymbs/input/frame.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/input/frame.py b/pymbs/input/frame.py
index 2ecf962..7ee44da 100644
--- a/pymbs/input/frame.py
+++ b/pymbs/input/frame.py
@@ -32,11 +32,12 @@ class Frame(AbstractFrame, MbsInputElement):
         :param R: Rotation matrix
         """
         cs = Frame(name, self, p, R)
+        assert not hasattr(self, name), f'name {name} already occupied'
+
         self.children.append(cs)
         self.coordList.append(cs)
 
         # add to object namespace
-        assert not hasattr(self, name), f'name {name} already occupied'
         self._frames[name] = cs
 
         return cs
-- 
2.43.0


From 80cf20b287a23dc80e889423e74ae3ea8aacc375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 094/126] fix: refused calls of addParam, addExpression,
 addJoint, addLoad, addSensor and addVisualisation left parts of the element
 behind; names and symbols of all parts are checked first

---
 pymbs/input/mbs_system.py | 194 ++++++++++++++++++++++++++++++++------
 1 file changed, 167 insertions(+), 27 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 1d23ca4..f0976e8 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -45,6 +45,7 @@ detail.
 '''
 
 import importlib
+import keyword
 import shutil
 import sys
 import tempfile
@@ -395,6 +396,30 @@ class MbsSystem(Body):
         assert len(startVals) == len(dofList), 'Invalid startValue parameter for %s' % name
         assert len(startVals_d) == len(dofList)
 
+        # check everything the elementary joints and bodies in between need,
+        # before the first one is added
+        for val in startVals + startVals_d:
+            assert isinstance(val, (int, float, symbolics.Symbol)), \
+                'Invalid startValue parameter for %s' % name
+
+        parBody1, parBody2 = CS1.getParentBody(), CS2.getParentBody()
+        assert not parBody1 == parBody2, \
+            'Joint %s would connect a body with itself' % name
+        if parBody2.endOfJoint is not None:
+            raise ValueError("Body '%s` is already the target body of joint '%s`" \
+                % (parBody2, parBody2.endOfJoint))
+
+        if len(dofList) > 1:
+            if len(set(dofList)) < len(dofList):
+                raise ValueError("Repeated DOF-Specifier for Joint %s" % name)
+            for dof in dofList:
+                self._checkName("%s_%s" % (name, dof))
+            for dof in dofList[:-1]:
+                dummyName = "dummy_%s_%s_%s" % (parBody1.name, parBody2.name, dof)
+                self._checkName(dummyName)
+                if dummyName in self.bodyDict:
+                    raise ValueError("Name of Body already exists: %s" % dummyName)
+
 
         elemJointList = []
 
@@ -630,6 +655,7 @@ class MbsSystem(Body):
         assert( len(limits) == 2 )
 
         # Symbol anlegen
+        self._checkSymbols(symbol_str)
         symbol = self.graph.addVariable(name=symbol_str, shape=shape, varKind=VarKind.Input)
 
         # TODO defaultValue is never used
@@ -691,6 +717,7 @@ class MbsSystem(Body):
         comment = fileName + ":" + functionName
 
         # Symbol anlegen
+        self._checkSymbols(symbol_str)
         symbol = self.graph.addVariable(name=symbol_str, shape=shape,
                                 varKind=VarKind.Controller, comment=comment)
 
@@ -745,7 +772,9 @@ class MbsSystem(Body):
             assert L == 3 or L == 6, "vectors must have length 3 or 6"
 
             #
-            suffixes=['x', 'y', 'z']
+            suffixes=['x', 'y', 'z'] if L == 3 else ['xx', 'xy', 'yy', 'xz', 'yz', 'zz']
+
+            self._checkParamParts(name, symbol_str, suffixes, defaultValue)
 
             if L == 3:
                 p = symbolics.Matrix((3,))
@@ -761,7 +790,6 @@ class MbsSystem(Body):
                 return p
             elif L == 6:
 
-                suffixes=['xx', 'xy', 'yy', 'xz', 'yz', 'zz']
                 p_temp = symbolics.zeros((L,1))
                 for v, suffix, idx in zip(defaultValue, suffixes, list(range(L))):
 
@@ -790,6 +818,9 @@ class MbsSystem(Body):
                 suffixes=["__%d_%d" % (a,b) for a in range(shape[0]) for b in range(shape[1])]
 
 
+            self._checkParamParts(name, symbol_str, suffixes,
+                                  [defaultValue[idx] for idx in range(len(suffixes))])
+
             p = symbolics.zeros(shape)
             for idx, suffix in enumerate(suffixes):
 
@@ -817,12 +848,35 @@ class MbsSystem(Body):
         except TypeError:
             pass
 
+        self._checkParamParts(name, symbol_str, None, defaultValue)
+
         paramSymbol = self.graph.addVariable(name=symbol_str, shape=tuple(), varKind=VarKind.Parameter, positive=positive, negative=negative)
         self.graph.addEquation(lhs=paramSymbol, rhs=defaultValue)
         self.paramDict[symbol_str] = defaultValue
 
         return paramSymbol
 
+    def _checkParamParts(self, name, symbol_str, suffixes, values):
+        """
+        Checks the names, symbols and values of all scalar parameters a
+        parameter consists of (suffixes is None: of just one)
+        """
+        if suffixes is None:
+            names, symbols, values = [name], [symbol_str], [values]
+        else:
+            names = ["%s__%s" % (name, suffix) for suffix in suffixes]
+            symbols = ["%s_%s" % (symbol_str, suffix) for suffix in suffixes]
+
+        for value in values:
+            if isinstance(value, symbolics.Basic):
+                assert value.shape() in ((), (1,), (1, 1)), \
+                    'the value of a parameter must be scalar: %s' % value
+            else:
+                assert isinstance(value, (int, float)), \
+                    'invalid value for parameter %s: %s' % (name, value)
+
+        self._checkNewElements(symbols, names)
+
     def _addLoad(self, typeString, loadSymb, CS1, CS2, CSref=None, name=None):
         """
         Internal function to add a 'PtPForce', 'CmpForce' or 'CmpTorque'
@@ -842,14 +896,17 @@ class MbsSystem(Body):
             CS2 = CS2._CS_0
         if isinstance(CSref, Body):
             CSref = CSref._CS_0
-        if isinstance(loadSymb, list):
-            loadSymb = self.addExpression(symbol_str=name+'_load', exp=symbolics.Matrix(loadSymb))
-
 
         assert CS1.__class__ == Frame
         assert CS2.__class__ == Frame, "CS2 should be a Frame but is a '%s' with '%s'"%(str(CS2.__class__), str(CS2))
 
-        assert isinstance(loadSymb, symbolics.Symbol)
+        if isinstance(loadSymb, list):
+            # becomes an expression as soon as everything has been checked
+            loadExp = symbolics.Matrix(loadSymb)
+        else:
+            assert isinstance(loadSymb, symbolics.Symbol)
+            loadExp = loadSymb
+        loadShape = loadExp.shape()
         assert CSref.__class__ in  (Frame, type(None))
 
 
@@ -857,26 +914,29 @@ class MbsSystem(Body):
             raise ValueError("Invalid force type specifier: %s"\
                                                     % typeString)
 
+        if name in self.loadDict:
+            raise ValueError('Force name %s already exists'\
+                                                        % name)
+
         if typeString == "PtPForce":
             # CSref does not make sense in PtP-case
             assert CSref is None
-            #assert loadExpr.shape == (1,1)
-            assert len(loadSymb.shape()) == 0
+            assert loadShape == (), "Shape must be () but it is %s"%str(loadShape)
+        else:
+            assert loadShape == (3,), "Shape must be (3,) but it is %s"%str(loadShape)
+
+        if isinstance(loadSymb, list):
+            loadSymb = self.addExpression(symbol_str=name+'_load', exp=loadExp)
+
+        if typeString == "PtPForce":
             loadObject=PtPForce(name, CS1, CS2, loadSymb)
 
         elif typeString == "CmpForce":
-            assert loadSymb.shape() == (3,) , "Shape %s is wrong for %s"%(loadSymb.shape(),name)
             loadObject=CmpForce(name, CS1, CS2, loadSymb, CSref)
 
         elif typeString == "CmpTorque":
-            assert loadSymb.shape() == (3,), "Shape must be (3,) but it is %s"%str(loadSymb.shape)
             loadObject=CmpTorque(name, CS1, CS2, loadSymb, CSref)
 
-
-        if name in self.loadDict:
-            raise ValueError('Force name %s already exists'\
-                                                        % name)
-
         self.loadDict[name]=loadObject
 
         # return nothing
@@ -897,17 +957,23 @@ class MbsSystem(Body):
         assert isinstance(thejoint, Joint),\
             "The passed joint object has the wrong type: %s" % type(thejoint)
 
+        assert thejoint.jointLoad == None,\
+            "The passed joint object already has a jointLoad"
+
+        if name in self.loadDict:
+            raise ValueError("Name of Load already exists: %s" % name)
+
         # Falls wir fuer die JointLoad einen Ausdruck aber kein Symbol erhalten,
         # dann neue temporaere Variable anlegen
+        if (isinstance(loadSymb, symbolics.Basic)):
+            assert loadSymb.shape() in ((), (1,), (1, 1)),\
+                "A joint load must be scalar"
         if (isinstance(loadSymb, symbolics.Basic) and not isinstance(loadSymb, symbolics.Symbol)):
             loadSymb = self.addExpression(symbol_str=name+'_load', exp=loadSymb)
 
         assert isinstance(loadSymb, symbolics.Symbol),\
             "loadSymb must be a Symbol, not a %s" % type(loadSymb)
 
-        assert thejoint.jointLoad == None,\
-            "The passed joint object already has a jointLoad"
-
         loadObject = JointLoad(name, thejoint, loadSymb)
         thejoint.jointLoad = loadObject
         self.loadDict[name] = loadObject
@@ -959,14 +1025,17 @@ class MbsSystem(Body):
         else:
             shape = exp.shape()
 
-        symbol = self.graph.addVariable(symbol_str, shape=shape, varKind=category, pos=positive, neg=negative)
         assert isinstance(exp, (int, float, symbolics.Basic, symbolics.Matrix, list))
+        assert isinstance(category, int)
 
         assert( (limits is None) or isinstance(limits, list) )
         if (isinstance(limits, list)):
             assert( len(limits) == 2 )
 
+        self._checkSymbols(symbol_str)
+
         # let the shape be set:
+        symbol = self.graph.addVariable(symbol_str, shape=shape, varKind=category, pos=positive, neg=negative)
         if (isinstance(exp, list)):
             exp = symbolics.Matrix(exp)
         if (not isinstance(exp, (symbolics.Basic, symbolics.Matrix, float, int))):
@@ -1109,6 +1178,8 @@ class MbsSystem(Body):
 
         elem=functions.element
 
+        self._checkSymbols(symb)
+
         if typeString == "Distance":
             symbol = self.graph.addVariable(name=symb, shape=(2,), varKind=category)
             newSensor = DistanceSensor(name, CS1, CS2, symbol, CSref, category)
@@ -1168,6 +1239,7 @@ class MbsSystem(Body):
 
         assert isinstance(category, int)
 
+        self._checkSymbols(symbstr)
         symb = self.graph.addVariable(name=symbstr, shape=(2,), varKind=category)
 
         # check, that the symbols parent already used
@@ -1203,9 +1275,11 @@ class MbsSystem(Body):
         assert isinstance(thejoint, Joint)
         assert isinstance(symbstr, str)
         assert isinstance(typeString, str)
+        assert typeString in ("Force", "Torque"), "Invalid typeString for Sensor %s: %s" % (name, typeString)
 
         assert isinstance(category, int)
 
+        self._checkSymbols(symbstr)
         symb = self.graph.addVariable(name=symbstr, shape=(3,), varKind=category)
 
         # check, that the symbols parent already used
@@ -1245,6 +1319,7 @@ class MbsSystem(Body):
 
         assert isinstance(category, int)
 
+        self._checkSymbols(symbstr)
         symb = self.graph.addVariable(name=symbstr, shape=(), varKind=category)
 
         # check, that the symbols parent already used
@@ -1283,8 +1358,12 @@ class MbsSystem(Body):
         assert(isinstance(name, str))
         assert(isinstance(cs, Frame))
 
+        assert isinstance(category, int)
+
         world = self
 
+        self._checkNewElements(["r_%s"%name, "T_%s"%name], ["r_%s"%name, "T_%s"%name])
+
         # Position
         posSensVect = self.addSensor.Position("r_%s"%name, world, cs, world, "r_%s"%name, category)
         # Orientation
@@ -1352,6 +1431,7 @@ class MbsSystem(Body):
         # create empty lists
         sensPos = [None]*len(csList)
         sensOri = [None]*len(csList)
+        sensorNames = []
         # run through all elements in csList
         for i in range(len(csList)):
             cs = csList[i]
@@ -1374,7 +1454,8 @@ class MbsSystem(Body):
             if typeString == 'flexible_Body':
                name += "_%i"%i
 
-            sensPos[i], sensOri[i] = self.addGraphicSensors(cs=cs, name=name, category=VarKind.Graphics)
+            self._checkNewElements(["r_%s"%name, "T_%s"%name], ["r_%s"%name, "T_%s"%name])
+            sensorNames.append((cs, name))
 
         # convert form tuple to list to have pop()
         args=list(args)
@@ -1490,6 +1571,11 @@ class MbsSystem(Body):
             # we should not end up here
             raise ValueError('Ivalid typeString')
 
+        # all arguments are fine: now add the sensors
+        for i, (cs, sensorName) in enumerate(sensorNames):
+            sensPos[i], sensOri[i] = self.addGraphicSensors(cs=cs, name=sensorName,
+                                                            category=VarKind.Graphics)
+
         graphRep.color = kwargs.get('color')
 
         self.usedNameDict[name] = graphRep
@@ -1515,6 +1601,9 @@ class MbsSystem(Body):
 
         world = self
 
+        parts = [p + "_" + name for p in ("r", "T", "v", "om", "a", "dom")]
+        self._checkNewElements(parts, parts)
+
         # Position
         self.addSensor.Position("r_%s"%name, world, CS_D, name="r_%s"%name)
         # Orientation
@@ -1551,6 +1640,9 @@ class MbsSystem(Body):
 
         world = self
 
+        parts = [p + "_" + name for p in ("r", "T", "v", "om", "F", "M")]
+        self._checkNewElements(parts, parts + ["CmpForce_" + name, "CmpTorque_" + name])
+
         # Position
         self.addSensor.Position("r_%s"%name, world, CS_C, name="r_%s"%name)
         self.addSensor.Orientation("T_%s"%name, CS_C, world, name="T_%s"%name)
@@ -1582,6 +1674,9 @@ class MbsSystem(Body):
         assert( isinstance(CS1, Frame) )
         assert( isinstance(CS2, Frame) )
 
+        parts = ["d_" + name, "F_" + name]
+        self._checkNewElements(parts, parts + ["PtPForce_" + name])
+
         self.addSensor.Distance("d_%s"%name, CS1, CS2, name="d_%s"%name)
         F = self.addInput("F_%s"%name, shape=None)
         self.addLoad.PtPForce(F, CS1, CS2, name="PtPForce_%s"%name)
@@ -1608,6 +1703,14 @@ class MbsSystem(Body):
         :type l0: Number or Parameter
         """
 
+        for value in (c, d, l0):
+            assert isinstance(value, (int, float)) or \
+                (isinstance(value, symbolics.Basic) and value.shape() == ()), \
+                'c, d and l0 must be scalar'
+
+        parts = [f'dx_{name}', f'force_{name}']
+        self._checkNewElements(parts, parts + [f'PtPForce_{name}'])
+
         dx = self.addSensor.Distance(f'dx_{name}', CS1, CS2, name=f'dx_{name}')
         F = self.addExpression(symbol_str=f'force_{name}',
                                exp= -c*(dx[0]-l0) - d*dx[1])
@@ -1633,6 +1736,9 @@ class MbsSystem(Body):
 
         world = self
 
+        parts = [p + "_" + name for p in ("r", "T", "v", "om", "F", "M")]
+        self._checkNewElements(parts, parts + ["CmpForce_" + name, "CmpTorque_" + name])
+
         # Position
         self.addSensor.Position("r_%s"%name, world, CS_C, name="r_%s"%name)
         self.addSensor.Orientation("T_%s"%name, world, CS_C, name="T_%s"%name)
@@ -1683,19 +1789,43 @@ class MbsSystem(Body):
         # idea: everything, that is could be a python identifier
         # is a valid name
 
-        testSource = "%s = 5" % nameStr
-
-        try:
-            # will raise a SyntaxError if nameStr is no valid identifier
-            compile(testSource, '<no source file>', 'single' )
-        except SyntaxError:
-            raise ValueError("'%s´ is an invalid name" % nameStr)
+        if not nameStr.isidentifier() or keyword.iskeyword(nameStr):
+            raise ValueError("'%s' is an invalid name" % nameStr)
 
         # TODO: fill that dict in the appr. methods
         if nameStr in self.usedNameDict:
             raise ValueError("Name '%s´ is already used by %s"\
                                      % (nameStr, self.usedNameDict[nameStr]))
 
+    def _checkSymbols(self, *symbols):
+        """
+        Raises an error if one of the strings can not be used for a new symbol
+        """
+        for i, symb in enumerate(symbols):
+            assert isinstance(symb, str), '%s is not a string!' % (symb,)
+
+            if not symb.isidentifier() or keyword.iskeyword(symb):
+                raise ValueError("'%s' is an invalid symbol" % symb)
+
+            if symb in symbols[:i] or self._isKnownSymbol(symb):
+                raise ValueError("Symbol '%s' is already in use" % symb)
+
+    def _isKnownSymbol(self, symb):
+        try:
+            self.graph.getVariable(symb)
+        except Exception:   # the graph does not know it
+            return False
+        return True
+
+    def _checkNewElements(self, symbols, names):
+        """
+        Checks the symbols and names of several elements before the first one
+        is added
+        """
+        self._checkSymbols(*symbols)
+        for name in names:
+            self._checkName(name)
+
     def _isscalar(self, arg):
         """
         check whether arg is an int or float instance or
@@ -2219,6 +2349,9 @@ class AddSensor(object):
 
         # if body is the MbsSystem, then generate an EnergySensor for the whole System
         if ( isinstance(body, MbsSystem) ):
+            names = ['E_%s'%b.name for b in body.bodyDict.values()]
+            body._checkNewElements(names + [symbol_str], names + [name])
+
             # Add Total Energy
             E = 0
 
@@ -2263,6 +2396,13 @@ class AddSensor(object):
         if (Bodies is None):
             Bodies = list(self.world.bodyDict.values())
 
+        assert isinstance(category, int)
+        for b in Bodies:
+            assert isinstance(b, Body), '%s is not a Body' % b
+        parts = ['%s_%s_r'%(name, b.name) for b in Bodies]
+        self.world._checkNewElements(parts + ['%s_Mass'%symbol_str, '%s_r'%symbol_str],
+                                     parts + ['%s_Mass'%name, '%s_r'%name])
+
         # Add Total Mass
         tM = 0
 
-- 
2.43.0


From 56c88487dd4d71a8536e180770f0c1cae7b30129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 095/126] fix: Fortran: raise the inverse to the power asked
 for

matpow multiplied up to the exponent itself, which for a negative exponent
never happens, so every power below -1 gave the plain inverse.
---
 symbolics/writer/FortranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 8a28eb6..77d01e2 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -693,7 +693,7 @@ double FortranWriter::generateFunctionmodule()
 	f << "    end if" << std::endl;
 	f << "    matpow = B" << std::endl;
 	f << std::endl;
-	f << "    do i=2, e" << std::endl;
+	f << "    do i=2, abs(e)" << std::endl;
 	f << "        matpow = matmul(matpow, B)" << std::endl;
 	f << "    end do" << std::endl;
 	f << std::endl;
-- 
2.43.0


From 49eceb597d0a0e2df3194b710531c4d69faca4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 096/126] fix: MATLAB: evaluate the sensors in the script
 whenever there are any

Only sensors the state derivative happens to use were looked for, so the
script of most models with sensors did not call the sensors function.
---
 symbolics/writer/MatlabWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 6dbf6b0..720bfbf 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -72,7 +72,7 @@ double MatlabWriter::generateBasicSim(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec sensors = a->getVariables(SENSOR);
+	Graph::VariableVec sensors = g.getVariables(SENSOR);
 	Graph::VariableVec states = a->getVariables(STATE);
 	if (states.empty())
 		throw InternalError("System without States, Feature is not yet Implemented in Matlab");
-- 
2.43.0


From 8e8180a6b05c56a11d81a2617179f244384040ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 097/126] fix: Modelica: write negative powers of matrices with
 the inverse

---
 symbolics/printer/ModelicaPrinter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symbolics/printer/ModelicaPrinter.cpp b/symbolics/printer/ModelicaPrinter.cpp
index 29d233a..bb9b8cc 100644
--- a/symbolics/printer/ModelicaPrinter.cpp
+++ b/symbolics/printer/ModelicaPrinter.cpp
@@ -83,6 +83,16 @@ std::string ModelicaPrinter::print_Pow( const Pow *pow )
 /*****************************************************************************/
 {
     if (pow == NULL) throw InternalError("ModelicaPrinter: Pow is NULL");
+    if (!pow->is_Scalar() && pow->getExponent()->getType() == Type_Int)
+    {
+        // the power of a matrix has to be a natural number
+        int e = Util::getAsConstPtr<Int>(pow->getExponent())->getValue();
+        if (e < 0)
+        {
+            std::string inv = "Modelica.Math.Matrices.inv(" + print(pow->getBase()) + ")";
+            return e == -1 ? inv : "(" + inv + "^" + str(-e) + ")";
+        }
+    }
     return "(" + print(pow->getBase()) + "^" + print(pow->getExponent()) + ")";
 }
 /*****************************************************************************/
-- 
2.43.0


From 7d16e3c37f5d7fe558e7d297c0252932816b3bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 098/126] fix: Modelica: constants were declared with their
 dimension twice

---
 symbolics/writer/ModelicaWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/ModelicaWriter.cpp b/symbolics/writer/ModelicaWriter.cpp
index d471797..5698cee 100644
--- a/symbolics/writer/ModelicaWriter.cpp
+++ b/symbolics/writer/ModelicaWriter.cpp
@@ -123,7 +123,7 @@ double ModelicaWriter::generateTarget_Impl(Graph::Graph &g)
   f << "//Constants" << std::endl;
   for (Graph::VariableVec::iterator ii=constants.begin();ii!=constants.end();++ii)
   {
-    f << "   constant Real" <<  p.dimension(*ii) << " " <<  p.dimension(*ii) << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
+    f << "   constant Real" <<  p.dimension(*ii) << " " << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
   }
   f << "//Variables" << std::endl;
   for (Graph::VariableVec::iterator ii=variables.begin();ii!=variables.end();++ii)
-- 
2.43.0


From b3b3b8749a9d3a2dddbd3fbbc036f03d2f748bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 099/126] fix: comparisons of numbers simplified to a number
 instead of a truth value, conditions stayed unresolved

---
 symbolics/functions/Equal.cpp   | 6 +++---
 symbolics/functions/Greater.cpp | 6 +++---
 symbolics/functions/Less.cpp    | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/symbolics/functions/Equal.cpp b/symbolics/functions/Equal.cpp
index 33822ca..a2f0036 100644
--- a/symbolics/functions/Equal.cpp
+++ b/symbolics/functions/Equal.cpp
@@ -75,7 +75,7 @@ BasicPtr Equal::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()==(clhs->getValue()?1.0:0.0)));
+            return Bool::New(crhs->getValue()==(clhs->getValue()?1.0:0.0));
         }
     }
     if (getArg1()->getType() == Type_Int) 
@@ -94,7 +94,7 @@ BasicPtr Equal::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()==clhs->getValue()));
+            return Bool::New(crhs->getValue()==clhs->getValue());
         }
     }
     if (getArg1()->getType() == Type_Real) 
@@ -113,7 +113,7 @@ BasicPtr Equal::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()==clhs->getValue()));
+            return Bool::New(crhs->getValue()==clhs->getValue());
         }
     }
     m_simplified = true;
diff --git a/symbolics/functions/Greater.cpp b/symbolics/functions/Greater.cpp
index f9b4058..06e15ab 100644
--- a/symbolics/functions/Greater.cpp
+++ b/symbolics/functions/Greater.cpp
@@ -75,7 +75,7 @@ BasicPtr Greater::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()<(clhs->getValue()?1.0:0.0)));
+            return Bool::New(crhs->getValue()<(clhs->getValue()?1.0:0.0));
         }
     }
     if (getArg1()->getType() == Type_Int) 
@@ -94,7 +94,7 @@ BasicPtr Greater::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()<clhs->getValue()));
+            return Bool::New(crhs->getValue()<clhs->getValue());
         }
     }
     if (getArg1()->getType() == Type_Real) 
@@ -113,7 +113,7 @@ BasicPtr Greater::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()<clhs->getValue()));
+            return Bool::New(crhs->getValue()<clhs->getValue());
         }
     }
     m_simplified = true;
diff --git a/symbolics/functions/Less.cpp b/symbolics/functions/Less.cpp
index 60d4612..67d1d00 100644
--- a/symbolics/functions/Less.cpp
+++ b/symbolics/functions/Less.cpp
@@ -75,7 +75,7 @@ BasicPtr Less::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()>(clhs->getValue()?1.0:0.0)));
+            return Bool::New(crhs->getValue()>(clhs->getValue()?1.0:0.0));
         }
     }
     if (getArg1()->getType() == Type_Int) 
@@ -94,7 +94,7 @@ BasicPtr Less::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()>clhs->getValue()));
+            return Bool::New(crhs->getValue()>clhs->getValue());
         }
     }
     if (getArg1()->getType() == Type_Real) 
@@ -113,7 +113,7 @@ BasicPtr Less::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()>clhs->getValue()));
+            return Bool::New(crhs->getValue()>clhs->getValue());
         }
     }
     m_simplified = true;
-- 
2.43.0


From ea17d131f6b52b7f155bc9b84b6de0a5a8e57c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 100/126] fix: SID files: nodes were misnumbered after reading
 an ill-formed file

---
 pymbs/common/sidfilereader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymbs/common/sidfilereader.py b/pymbs/common/sidfilereader.py
index dfd5333..5677aa1 100644
--- a/pymbs/common/sidfilereader.py
+++ b/pymbs/common/sidfilereader.py
@@ -1102,6 +1102,9 @@ class Frame(BaseFileReader):
         anz_Knoten = nNodes
         # Liste wo  Knotenobjekte abgelegt werden
         self.Knoten = list()
+        # jede Datei zaehlt ihre Knoten neu, auch wenn das Einlesen der
+        # vorhergehenden Datei abgebrochen wurde
+        Node.nodenumber = 1
         # fuer jeden Knoten wird ein Knotenobjekt erstellt und in Liste
         # abgespeichert
         for i in range(anz_Knoten):
-- 
2.43.0


From 81475417848377a5aa1c93577536bc9577d01cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 101/126] fix: SID files: entries with an index of zero or of
 the wrong order were stored somewhere else in the matrix

---
 pymbs/common/sidfilereader.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pymbs/common/sidfilereader.py b/pymbs/common/sidfilereader.py
index 5677aa1..25383a9 100644
--- a/pymbs/common/sidfilereader.py
+++ b/pymbs/common/sidfilereader.py
@@ -245,9 +245,12 @@ class Matrix_built(BaseFileReader):
                     matrixzeilen_inhalt = self.listen_element_auslesen(content)
                     # Liste auslesen und 1 subtrahieren, da Index beginnt bei
                     # Python bei 0
+                    if (len(matrixzeilen_inhalt) != 3):
+                        raise SIDFormatException("Element 1-ter Ordnung in einer Matrix 0-ter Ordnung")
                     row = matrixzeilen_inhalt[0]-1
                     col = matrixzeilen_inhalt[1]-1
                     abs = matrixzeilen_inhalt[2]
+                    self.index_check(row, col)
                     # Wert an entsprechende Matrixstelle schreiben
                     self.M0[row,col] = abs
                     # zeile einlesen
@@ -275,6 +278,7 @@ class Matrix_built(BaseFileReader):
                         row = matrixzeilen_inhalt[0]-1
                         col = matrixzeilen_inhalt[1]-1
                         abs = matrixzeilen_inhalt[2]
+                        self.index_check(row, col)
                         # Matrix M0 befuellen
                         self.M0[row,col] = abs
                         # Zeile einlesen
@@ -289,6 +293,7 @@ class Matrix_built(BaseFileReader):
                         dim = matrixzeilen_inhalt[1]-1
                         col = matrixzeilen_inhalt[2]-1
                         abs = matrixzeilen_inhalt[3]
+                        self.index_check(row, col, dim)
                         # Matrix M1 befuellen
                         self.M1[dim][row,col] = abs
                         #print self.M1
@@ -302,6 +307,14 @@ class Matrix_built(BaseFileReader):
                 raise SIDFormatException("Keyword 'end' erwartet, aber '%s' bekommen"%(content_l[0]))
 
 
+        def index_check(self, row, col, dim=0):
+            '''
+            Prueft ob die Indizes (beginnend bei 0) innerhalb der Matrix liegen
+            '''
+            if not ((0 <= row < self.nrow) and (0 <= col < self.ncol) and (0 <= dim < max(self.nq, 1))):
+                raise SIDFormatException("Index (%s, %s, %s) ausserhalb der Matrix"%(row+1, dim+1, col+1))
+
+
         def M_ToString(self):
             '''
             Funktion wandelt die M0 und M1 Matrix in einen String um,
-- 
2.43.0


From ee7ff931cbb806c56833adb5d0f91767bf216ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 102/126] fix: blocks of implicit equations are visited in the
 order of dependence

---
 symbolics/graph/UnMatchedSystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/symbolics/graph/UnMatchedSystem.cpp b/symbolics/graph/UnMatchedSystem.cpp
index 9ac4ecd..109b7eb 100644
--- a/symbolics/graph/UnMatchedSystem.cpp
+++ b/symbolics/graph/UnMatchedSystem.cpp
@@ -1183,7 +1183,6 @@ void UnMatchedSystem::strongConnect(size_t &i, MEquation* eqn,
             {
               if (eqn->lowlink > eq->number)
                 eqn->lowlink = eq->number;
-              break;
             }
           }
         }
-- 
2.43.0


From 8289ce45cf48d87c04f4f52b96c1fcab7e5a051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 103/126] fix: algebraic loops are solved together and keep all
 their elements

---
 symbolics/graph/EquationSystem.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 68c9137..83752c1 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -808,7 +808,8 @@ EquationPtr EquationSystem::combineEquations(EquationPtrVec equations)
   SymbolPtrElemMap solveFor;
   BasicPtrVec lhs;
   BasicPtrVec rhs;
-  bool implizit=false;
+  // the equations of an algebraic loop have to be solved together
+  bool implizit=true;
   for (size_t i=0;i<equations.size();i++)
   {
     EquationPtrSet::iterator ii = m_equations.find(equations[i]);
@@ -826,10 +827,10 @@ EquationPtr EquationSystem::combineEquations(EquationPtrVec equations)
           throw InternalError("Symbol " + f->first->getName() + " is more than once solved in expression");
         else if(f->second.kind == SEVERAL)
         {
-          for (SizeTPairSet::iterator sa=f->second.elements.begin();sa!=f->second.elements.end();sa++)
+          for (SizeTPairSet::iterator sa=e->second.elements.begin();sa!=e->second.elements.end();sa++)
           {
             std::pair<SizeTPairSet::iterator,bool> ret;
-            ret = e->second.elements.insert(SizeTPair(sa->first,sa->second));
+            ret = f->second.elements.insert(SizeTPair(sa->first,sa->second));
             if (ret.second == false)
               throw InternalError("Symbol " + f->first->getName() + " is more than once solved in expression");
           }
-- 
2.43.0


From 2458e24185bb53874f220a4b0d6cdc5f0bcd6cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 104/126] fix: no common functions out of implicit equations

---
 symbolics/graph/PreOptimisation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/graph/PreOptimisation.cpp b/symbolics/graph/PreOptimisation.cpp
index bb23e61..376014e 100644
--- a/symbolics/graph/PreOptimisation.cpp
+++ b/symbolics/graph/PreOptimisation.cpp
@@ -110,7 +110,8 @@ void PreOptimisation::optimizeUnaryFunctions(Basic_Type type )
     for (EquationPtrSet::iterator ie=all.begin();ie!=all.end();++ie)
     {
       // parameters and constants are written before all other variables
-      if (!definesParameter(*ie))
+      // and implicit equations may determine the argument of the function
+      if (!definesParameter(*ie) && !(*ie)->is_Implicit())
         equations.insert(*ie);
     }
     for (EquationPtrSet::iterator ie=equations.begin();ie!=equations.end();++ie)
-- 
2.43.0


From a25c595bef397a7f878ace17d828b29645415bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 105/126] fix: assignments contain all elements of a variable
 solved element by element

---
 symbolics/graph/Graph.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symbolics/graph/Graph.cpp b/symbolics/graph/Graph.cpp
index b70a9da..2d267d4 100644
--- a/symbolics/graph/Graph.cpp
+++ b/symbolics/graph/Graph.cpp
@@ -128,6 +128,22 @@ Symbolics::Graph::AssignmentsPtr Symbolics::Graph::Graph::getAssignments(Categor
       }
     }
   }
+  // a variable is determined completely, even if its elements are solved by different nodes
+  for (size_t i=0;i<reqnodes.size();++i)
+  {
+    SymbolPtrElemMap &symbols = reqnodes[i]->getSolveFor();
+    for (SymbolPtrElemMap::iterator ii=symbols.begin();ii!=symbols.end();++ii)
+    {
+      SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(ii->first->getUserData(ID_UD_NODE));
+      if ((elem == NULL) || (elem->kind == ALL))
+        continue;
+      for (SizeTPairNodePtrMap::iterator ie=elem->elements.begin();ie!=elem->elements.end();++ie)
+      {
+        if (!ie->second->visited && !(ie->second->get_Category() & exclude))
+          Node::node_iterate_depth_first(ie->second,v);
+      }
+    }
+  }
   // reset visited
   for (size_t i=0;i<m_nodes.size();++i)
   {
-- 
2.43.0


From 1ff608f4b8d466803a207b1339e078cf15c2dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 106/126] fix: Python arrays exist before their elements are
 assigned

---
 symbolics/writer/PythonWriter.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index ee5848a..4f92f1f 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -1,4 +1,6 @@
+#include <set>
 #include "PythonWriter.h"
+#include "Der.h"
 #include "str.h"
 #include <iostream>
 #include <vector>
@@ -488,6 +490,7 @@ std::string PythonWriter::writeEquations(std::vector<Graph::Assignment> const& e
 /*****************************************************************************/
 {
 	std::stringstream s;
+	std::set<std::string> arrays;
 
 	for (std::vector<Graph::Assignment>::const_iterator it=equations.begin(); it!=equations.end(); ++it)
 	{
@@ -511,6 +514,20 @@ std::string PythonWriter::writeEquations(std::vector<Graph::Assignment> const& e
 						s << (j+k ? ", " : "") << m_p->print(mat->get(j,k));
 				s << " = " << m_p->print(simple_exp) << ".getA1()" << std::endl;
 			} else { // ordinary equation
+				// an array has to exist before its elements are assigned
+				BasicPtr elem = it->lhs[i];
+				if (elem->getType() == Type_Der)
+					elem = elem->getArg(0);
+				if (elem->getType() == Type_Element)
+				{
+					BasicPtr whole = elem->getArg(0);
+					Shape n = whole->getShape();
+					if (it->lhs[i]->getType() == Type_Der)
+						whole = Der::New(whole);
+					std::string name = m_p->print(whole);
+					if (arrays.insert(name).second)
+						s << "    " << name << " = matrix(zeros((" << n.getDimension(1) << "," << n.getDimension(2) << ")))" << std::endl;
+				}
 				s << "    " << m_p->print(it->lhs[i]) << " = " << m_p->print(simple_exp) << std::endl;
 				//f << "    print \"" << m_p->print(equations[i].lhs[l]) << ": %s\"%" << m_p->print(equations[i].lhs[l]) << std::endl; //for debug
 			}
-- 
2.43.0


From 3f8a177325ead6c5c0103ce17f73204cc422319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 107/126] fix: one-element lists of an assignment are unwrapped
 on both sides

---
 pymbs/symbolics/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymbs/symbolics/graph.py b/pymbs/symbolics/graph.py
index 4af565b..0913505 100644
--- a/pymbs/symbolics/graph.py
+++ b/pymbs/symbolics/graph.py
@@ -131,6 +131,9 @@ class Assignment(object):
             if (len(lhs) == 1):
                 lshape = tuple()
                 lhs = lhs[0]
+                if isinstance(rhs, list) and len(rhs) == 1 and \
+                   not isinstance(rhs[0], list):
+                    rhs = rhs[0]
             else:
                 lshape = (len(lhs),)
                 self.lhs = lhs
-- 
2.43.0


From a48a71d16863706c08619aff2727d972c3e76353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 108/126] fix: symbols of an equation follow its optimisation

---
 symbolics/graph/Equation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolics/graph/Equation.cpp b/symbolics/graph/Equation.cpp
index 3225767..3186131 100644
--- a/symbolics/graph/Equation.cpp
+++ b/symbolics/graph/Equation.cpp
@@ -325,6 +325,7 @@ void Equation::iterateEquation(Basic::Iterator &v)
   {
     m_rhs[i].setArg(m_rhs[i].getArg()->iterateExp(v));
   }
+  findSymbols();
 }
 /*****************************************************************************/
 
-- 
2.43.0


From d8a362941cc60e4a2e2fd8ed143bd075e7883e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 109/126] fix: elements of a state derivative are solved for
 the derivative

---
 symbolics/Basic.cpp          |  7 ++++++-
 symbolics/graph/Equation.cpp | 27 ++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/symbolics/Basic.cpp b/symbolics/Basic.cpp
index 3f7e5de..3aafae8 100644
--- a/symbolics/Basic.cpp
+++ b/symbolics/Basic.cpp
@@ -165,10 +165,15 @@ BasicPtr Basic::solve(BasicPtr exp)
 
     if (exp->getType() == Type_Symbol)
     {
+      // there is no derivative with respect to a vector or matrix
+      if (!exp->is_Scalar())
+          return BasicPtr();
+
+      // not solvable if this does not depend on exp
       BasicPtr m_der = der(exp)->simplify();
       if (Util::is_Zero(m_der))
       {
-          return Zero::getZero(m_shape);
+          return BasicPtr();
       }
 
       LookFor lookfor(exp);
diff --git a/symbolics/graph/Equation.cpp b/symbolics/graph/Equation.cpp
index 3186131..197312a 100644
--- a/symbolics/graph/Equation.cpp
+++ b/symbolics/graph/Equation.cpp
@@ -270,7 +270,32 @@ void Equation::solve(BasicPtr const& exp)
       }    
     }
     else
-      solve = eqn->solve(exp);
+    {
+      // the derivative of an element of a state is der(element(state))
+      if ((exp->getType() == Type_Element) && (exp->getArg(0)->getType() == Type_Symbol))
+      {
+        const Element *e = Util::getAsConstPtr<Element>(exp);
+        const Symbol *sconst = Util::getAsConstPtr<Symbol>(exp->getArg(0));
+        Symbol *s = static_cast<Symbol*>(sconst->getUserData(ID_UD_STATE));
+        size_t state = (sconst->stateKind() == ALL) ? sconst->is_State(0,0) : sconst->is_State(e->getRow(),e->getCol());
+        if ((s != NULL) && (state & DER_STATE))
+        {
+          isDerivative = true;
+          derexp = Der::New(Element::New(BasicPtr(s),e->getRow(),e->getCol()));
+          if (m_lhs[0].getArg() == derexp)
+          {
+            Basic::LookFor sc(derexp);
+            m_rhs[0].getArg()->scanExp(sc);
+            if (!sc.found)
+            {
+              m_implizit = false;
+              return;
+            }
+          }
+        }
+      }
+      solve = eqn->solve(isDerivative ? derexp : exp);
+    }
     if (solve.get() == NULL)
     {
       m_implizit = true;
-- 
2.43.0


From c4324e1b61913d4447c055cdd77e55ddb8cdcb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 110/126] fix: an equation with a step at its unknown is not
 solved as a linear one

---
 symbolics/Basic.cpp       | 31 +++++++++++++++++++++++++++++++
 symbolics/include/Basic.h | 12 ++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/symbolics/Basic.cpp b/symbolics/Basic.cpp
index 3aafae8..fc63085 100644
--- a/symbolics/Basic.cpp
+++ b/symbolics/Basic.cpp
@@ -182,6 +182,13 @@ BasicPtr Basic::solve(BasicPtr exp)
       {
           return BasicPtr();
       }
+      // nor linear if there are steps
+      LookForSteps steps(exp);
+      scanExp(steps);
+      if (steps.found)
+      {
+          return BasicPtr();
+      }
       return Neg::New(Util::div(subs(exp,Zero::getZero(exp->getShape())),m_der));
     }
     else
@@ -226,6 +233,30 @@ bool Basic::LookFor::process_Arg(BasicPtr const &p, bool &stop)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+bool Basic::LookForSteps::process_Arg(BasicPtr const &p, bool &stop)
+/*****************************************************************************/
+{
+    switch (p->getType())
+    {
+    case Type_Sign:
+    case Type_Less:
+    case Type_Greater:
+    case Type_Equal:
+      {
+        LookFor lookfor(m_lookfor);
+        p->scanExp(lookfor);
+        if (lookfor.found)
+            found = true;
+        break;
+      }
+    default:
+        break;
+    }
+    return !found;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 bool Basic::LookForMultiple::process_Arg(BasicPtr const &p, bool &stop)
 /*****************************************************************************/
diff --git a/symbolics/include/Basic.h b/symbolics/include/Basic.h
index 7cdbab1..91a77f4 100644
--- a/symbolics/include/Basic.h
+++ b/symbolics/include/Basic.h
@@ -203,6 +203,18 @@ namespace Symbolics
         protected:
             BasicSet &m_lookfor;
         };
+
+        // steps: sign of or comparison with an expression, the derivative does not show them
+        class LookForSteps: public Scanner
+        {
+        public:
+            LookForSteps(BasicPtr const &lookfor) :m_lookfor(lookfor),found(false) {;}
+            ~LookForSteps() {;}
+            bool process_Arg(BasicPtr const &p, bool &stop);
+            bool found;
+        protected:
+            BasicPtr m_lookfor;
+        };
     private:
         // Boost Intrusive Ptr
         unsigned int m_refCount;
-- 
2.43.0


From ed3a432e7178f447046bd9392ca1653bc52be6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 111/126] fix: a matrix equation with a factor from its
 simplification was not written element by element in C

---
 symbolics/graph/EquationSystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 83752c1..8165cb0 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -632,6 +632,10 @@ EquationSystemPtr EquationSystem::makeScalar()
 
          std::string s2 = lhs->toString() + " = " + rhs->toString();
 
+        // a factor that came out of the simplification may still have to be multiplied with the elements
+        if ((lhs->getType() == Type_Matrix) && (rhs->getType() != Type_Matrix) && (rhs->getType() != Type_Solve))
+          rhs = rhs->simplify();
+
 
         if ((lhs->getType() != Type_Matrix) || ((rhs->getType() != Type_Matrix) &&  (rhs->getType() != Type_Zero) &&  (rhs->getType() != Type_Eye)))
         {
-- 
2.43.0


From a9284726b6e6ff7f9ae11248c261f36c17e5f8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:12 +0000
Subject: [PATCH 112/126] fix: the Python wrapper of compiled C code needs no
 setInputs and passes vectors in the shape they are given

---
 symbolics/writer/CWriter.cpp | 53 +++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 27caca1..82c2779 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -466,6 +466,23 @@ std::string CWriter::writeScalarOutputs(Graph::VariableVec const& outputs, bool
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+static std::string wrapperArgument(boost::intrusive_ptr<Symbol> const& v, std::string const& value)
+/*****************************************************************************/
+{
+	// The C function takes scalars by value and everything else as an array of
+	// doubles with the shape that is declared in argtypes
+	if (v->is_Scalar())
+		return value;
+
+	Shape const& s = v->getShape();
+	if (s.getNrDimensions() == 1)
+		return "array(" + value + ", dtype=float).reshape(" + str(s.getNumEl()) + ")";
+
+	return "array(" + value + ", dtype=float).reshape(" + str(s.getDimension(1)) + "," + str(s.getDimension(2)) + ")";
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 double CWriter::generatePymbsWrapper(Graph::Graph& g)
 /*****************************************************************************/
@@ -494,7 +511,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << std::endl;
 	f << "import platform" << std::endl;
 	f << "from ctypes import c_double" << std::endl;
-	f << "from numpy import matrix, empty, zeros, ctypeslib" << std::endl;
+	f << "from numpy import matrix, array, empty, zeros, ctypeslib" << std::endl;
 	f << std::endl;
     if (!sensors.empty())
 	{
@@ -533,18 +550,8 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     f << "# inputs" << std::endl;
 	f << "_inputs = {" << std::endl;
 	for (Graph::VariableVec::iterator it=state_inputs.begin();it!=state_inputs.end();++it)
-    { // Da wir in C momentan mit echten Vektoren arbeiten m�ssen wir hier unser eigenes zero bauen... (eigentlich geht das nicht wegen initVal - TODO!)
-		//f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it)) 
-        //  << ",   " << p.comment2(g,*it) << std::endl;
-        f << "           '" << p.print(*it) << "' : zeros(";
-        if ((*it)->is_Scalar()) 
-			f << "1";
-		else if ((*it)->is_Vector()) 
-			f << (*it)->getShape().getNumEl();
-		else
-			f << "(" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << ")";
-		f << "),   " << p.comment2(g,*it) << std::endl;
-    }
+        f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it))
+          << ",   " << p.comment2(g,*it) << std::endl;
 	f << "          }" << std::endl;        
 	f << std::endl;
 	f << "def setInputs(ext_inputs):" << std::endl;
@@ -565,9 +572,9 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << "    yd = empty(y.shape)" << std::endl;
 	f << "    cm." << m_name << "_der_state(t, y, yd";
     for (Graph::VariableVec::iterator it=state_inputs.begin();it!=state_inputs.end();++it)
-        f << ", _inputs['" << p.print(*it) << "']";
+        f << ", " << wrapperArgument(*it, "_inputs['" + p.print(*it) + "']");
     for (Graph::VariableVec::iterator it=controller.begin();it!=controller.end();++it)
-        f << ", " << m_p->print(*it);
+        f << ", " << wrapperArgument(*it, m_p->print(*it));
     f << ")" << std::endl;
 	f << "    return yd" << std::endl;
 
@@ -677,18 +684,8 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     f << "# inputs" << std::endl;
 	f << "_inputs = {" << std::endl;
 	for (Graph::VariableVec::iterator it=sens_inputs.begin();it!=sens_inputs.end();++it)
-    { // Da wir in C momentan mit echten Vektoren arbeiten m�ssen wir hier unser eigenes zero bauen... (eigentlich geht das nicht wegen initVal - TODO!)
-		//f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it)) 
-        //  << ",   " << p.comment2(g,*it) << std::endl;
-        f << "           '" << p.print(*it) << "' : zeros(";
-        if ((*it)->is_Scalar()) 
-			f << "1";
-		else if ((*it)->is_Vector()) 
-			f << (*it)->getShape().getNumEl();
-		else
-			f << "(" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << ")";
-		f << "),   " << p.comment2(g,*it) << std::endl;
-    }
+        f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it))
+          << ",   " << p.comment2(g,*it) << std::endl;
 	f << "          }" << std::endl;        
 	f << std::endl;
 	f << "def setInputs(ext_inputs):" << std::endl;
@@ -714,7 +711,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "    cm." << m_name << "_sensors(t, q";
     for (Graph::VariableVec::iterator it=sens_inputs.begin();it!=sens_inputs.end();++it)
-        f << "," << std::endl << "        _inputs['" << p.print(*it) << "']";
+        f << "," << std::endl << "        " << wrapperArgument(*it, "_inputs['" + p.print(*it) + "']");
 	for (Graph::VariableVec::iterator it=sensors.begin(); it!=sensors.end(); ++it)
 		f  << "," << std::endl << "        " << p.print(*it) << "";
 	f << ")" << std::endl;
-- 
2.43.0


From 6fa5ff257085fe728ae109ce1c1263cf0d7d50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:12 +0000
Subject: [PATCH 113/126] fix: controllers get the sensors in the Python
 wrapper of compiled C code

---
 symbolics/writer/CWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 82c2779..0c6f4f3 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -561,6 +561,13 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << "def ode_int(t, y):" << std::endl;
 	f << "    global _inputs" << std::endl;
 	f << std::endl;
+	if (!controller.empty())
+	{
+		if (!sensors.empty())
+			f << "    sensors = graphSensors(t, y)" << std::endl;
+		else
+			f << "    sensors = dict()" << std::endl;
+	}
     for (Graph::VariableVec::iterator it=controller.begin();it!=controller.end();++it)
 	{
         std::string comment_tmp = m_p->comment2(g,*it);
-- 
2.43.0


From 395f4fc712452e034c8815121a961c572f6cdcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 114/126] fix: a state of whole numbers was read as garbage by
 the Python wrapper of compiled C code

---
 symbolics/writer/CWriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 0c6f4f3..77517d6 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -576,6 +576,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
         std::vector<std::string> comment_vector = split(comment, ':');
         f << "    " << m_p->print(*it) << " = " << comment_vector.back() << "(t, y, sensors)" << std::endl;
 	}
+	f << "    y = array(y, dtype=float)" << std::endl;
 	f << "    yd = empty(y.shape)" << std::endl;
 	f << "    cm." << m_name << "_der_state(t, y, yd";
     for (Graph::VariableVec::iterator it=state_inputs.begin();it!=state_inputs.end();++it)
@@ -620,7 +621,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "def graphVisualSensors(q):" << std::endl;
 	f << std::endl;
-	f << "    q = array(q)   # q ist manchmal Liste, muss aber unbedingt ndarray sein." << std::endl;
+	f << "    q = array(q, dtype=float)   # q ist manchmal Liste, muss aber unbedingt ndarray sein." << std::endl;
 	for (Graph::VariableVec::iterator it=sens_vis.begin(); it!=sens_vis.end(); ++it)
 	{
 		f  << "    " << p.print(*it) << " = zeros(";
@@ -702,7 +703,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "def graphSensors(t, q):" << std::endl;
 	f << std::endl;
-	f << "    q = array(q)   # q ist manchmal Liste, muss aber unbedingt ndarray sein." << std::endl;
+	f << "    q = array(q, dtype=float)   # q ist manchmal Liste, muss aber unbedingt ndarray sein." << std::endl;
 	for (Graph::VariableVec::iterator it=sensors.begin(); it!=sensors.end(); ++it)
 	{
 		f  << "    " << p.print(*it) << " = zeros(";
-- 
2.43.0


From ffee0f871f033cecff963fb052d0571eb62a7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 115/126] fix: the Python wrapper of compiled Fortran code
 could not be imported with a current scipy

---
 symbolics/writer/FortranWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 77d01e2..3eb8af1 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -513,7 +513,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_der_state_compiledF90 import " << m_name_lower << "_der_state" << std::endl;
 	f << std::endl;
     f << "# inputs" << std::endl;
@@ -551,7 +551,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_visual_compiledF90 import " << m_name_lower << "_visual" << std::endl;
 
 	f << "def graphVisualSensors(q):" << std::endl;
@@ -593,7 +593,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_sensors_compiledF90 import " << m_name_lower << "_sensors" << std::endl;
     f << std::endl;
     f << "# inputs" << std::endl;
-- 
2.43.0


From 4faf95103fdab30f92b0af9e689fa54c880053dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 116/126] fix: sensors and visualisation in Fortran declare the
 state vector with its length, not up to the last state they need

---
 symbolics/writer/FortranWriter.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 3eb8af1..7da29e3 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -187,6 +187,20 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+static size_t stateDimension(Graph::Graph& g)
+/*****************************************************************************/
+{
+	// y contains all states, no matter which of them are needed
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	size_t dim = 0;
+	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
+		dim += (*it)->getShape().getNumEl();
+
+	return dim;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 double FortranWriter::generateSensors(Graph::Graph& g)
 /*****************************************************************************/
@@ -239,14 +253,12 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!declare arguments and return variables" << std::endl;
     f << "    double precision, intent(in) :: time" << std::endl;
-	size_t input_dim=0; 
 	std::map<std::string, size_t> positions = statePositions(g);
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-		input_dim = std::max(input_dim, positions[(*it)->getName()] + (*it)->getShape().getDimension(1));
 	}
-	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
+	f << "    double precision, dimension(" << stateDimension(g) << ",1), intent(in) :: y" << std::endl;
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
 		f << "    double precision"<< m_p->dimension(*it) << ", intent(out) :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
@@ -366,14 +378,12 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
 	f << "!declare arguments and return variables" << std::endl;
-	size_t input_dim=0; 
 	std::map<std::string, size_t> positions = statePositions(g);
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-		input_dim = std::max(input_dim, positions[(*it)->getName()] + (*it)->getShape().getDimension(1));
 	}
-	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
+	f << "    double precision, dimension(" << stateDimension(g) << ",1), intent(in) :: y" << std::endl;
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
 		f << "    double precision"<< m_p->dimension(*it) << ", intent(out) :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
-- 
2.43.0


From c28ed485bbb6d77a939d7b173c03b66e9170a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 117/126] fix: the state derivative of compiled Fortran code
 was a column, which the integrator does not take

---
 symbolics/writer/FortranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 7da29e3..ab72861 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -543,7 +543,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << "    return " << m_name_lower << "_der_state(t, y";
     for (Graph::VariableVec::iterator it=der_state_inputs.begin();it!=der_state_inputs.end();++it)
         f << ", _inputs['" << p.print(*it) << "']";
-    f << ")" << std::endl;
+    f << ").ravel()" << std::endl;
 
 	f.close();
 
-- 
2.43.0


From d199a55f962920764e8e80c774f70138a7134340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 118/126] fix: the pivot search of the Fortran linear solver
 used an uninitialised index for a singular or undefined matrix

---
 symbolics/writer/FortranWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index ab72861..83d2d41 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -844,6 +844,7 @@ double FortranWriter::generateFunctionmodule()
 	f << "!" << std::endl;
 	f << "  DO J = 1, N-1" << std::endl;
 	f << "    PI1 = 0.0" << std::endl;
+	f << "    K   = J" << std::endl;
 	f << "    DO I = J, N" << std::endl;
 	f << "      PI = ABS(A(INDX(I),J))/C(INDX(I))" << std::endl;
 	f << "      IF (PI.GT.PI1) THEN" << std::endl;
-- 
2.43.0


From 1520051df9eaaa58450eed1b1fd9ef4daae6f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 119/126] fix: result files could not be opened, the dialog
 returns the file name together with the filter

---
 pymbs/ui/gui.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index 5af8b59..820606e 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -1138,8 +1138,9 @@ class Gui(QMainWindow, pymbsMainWindow):
     def loadResults(self):
 
         # load results and play them
-        fileName = QFileDialog.getOpenFileName(self, 'Open MATLAB Result File', '',
-                                               ("MATLAB mat-Files (*.mat)"))
+        # returns the file name and the filter selected
+        fileName, _ = QFileDialog.getOpenFileName(self, 'Open MATLAB Result File', '',
+                                                  ("MATLAB mat-Files (*.mat)"))
         fileName = str(fileName)
         if (fileName == ''):
             return
-- 
2.43.0


From 46080c80c0f80726a600c32168571fdd2a60deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 120/126] fix: recording of positions failed, the recorder did
 not know the objects and kept earlier records

---
 pymbs/ui/pi_recorder.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pymbs/ui/pi_recorder.py b/pymbs/ui/pi_recorder.py
index a044072..be212ce 100644
--- a/pymbs/ui/pi_recorder.py
+++ b/pymbs/ui/pi_recorder.py
@@ -111,8 +111,13 @@ class PIRecorder(object):
             _name = i[2:]
 
             if i.startswith('r_'):
-                _curSet.extend(sensors[i].flatten().tolist()[0])
-                _curSet.extend(sensors['T_%s'%_name].flatten().tolist()[0])
+                T = sensors['T_%s'%_name]
+                # workaround for constant orientation (graph generates T = 1)
+                if isinstance(T, int):
+                    T = numpy.eye(3)
+
+                _curSet.extend(numpy.asarray(sensors[i]).flatten().tolist())
+                _curSet.extend(numpy.asarray(T).flatten().tolist())
 
                 self.sensors[_name].append(_curSet)
 
@@ -137,6 +142,9 @@ class PIRecorder(object):
         Begin recording.
         '''
 
+        # the sensors are not known before the scene was drawn
+        self.reset()
+
         self.startTime = time.time()
         self.timer.start()
 
@@ -177,4 +185,4 @@ class PIRecorder(object):
         print('position inputs saved')
 
         # clean up
-        self.reset
\ No newline at end of file
+        self.reset()
\ No newline at end of file
-- 
2.43.0


From 58e1c3356305970e60f05dae0973e82ea658aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 121/126] fix: a stop right after the start of the simulation
 was lost, and a restart ran two threads at once

---
 pymbs/ui/thread.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pymbs/ui/thread.py b/pymbs/ui/thread.py
index d76487a..8001e0c 100644
--- a/pymbs/ui/thread.py
+++ b/pymbs/ui/thread.py
@@ -39,9 +39,19 @@ class PyMbsThread(threading.Thread):
         if (self.execute):
             self.stop()
 
+        # the thread must not go on beside the new one
+        if self.is_alive() and (self is not threading.current_thread()):
+            self.join()
+
         self.__init__(self.function, self.realtime)
 
 
+    def start(self):
+        # before the thread runs, otherwise a stop() in between would be lost
+        self.execute = True
+        threading.Thread.start(self)
+
+
     def run(self):
         # Initialise Offsets
         self.real_offset = time.time()
@@ -52,7 +62,6 @@ class PyMbsThread(threading.Thread):
         # print "Starting Thread " + str(id(self))
 
         # Endless Loop
-        self.execute = True
         while self.execute:
 
             # synchronise with real time
-- 
2.43.0


From ea5e14ff44937195259fea895cd51f151018e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:01 +0000
Subject: [PATCH 122/126] fix: after the model was compiled the viewer and its
 window of sensor values failed on one-dimensional values

---
 pymbs/ui/gui.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index 820606e..dee6e75 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -621,12 +621,17 @@ class Sensors(QDialog):
             k = str(s)
             if (self.sensoren[k].isChecked () ):
                 i = values[k]
-                if (isinstance(i,(int,float))):
+                if (np.size(i) == 1):
+                    i = float(np.asarray(i).item())
                     v.append(i)
                     shapes.append(1)
                     xtext.append('')
                     xleg.append('%s\n%.2f'%(k,i))
                 else:
+                    # compiled models return vectors as one dimensional arrays
+                    i = np.asarray(i, dtype=float)
+                    if (i.ndim == 1):
+                        i = i.reshape(-1,1)
                     shape = i.shape
                     shapes.append(shape[0]*shape[1])
                     value = 0.0
@@ -1302,11 +1307,12 @@ class Gui(QMainWindow, pymbsMainWindow):
                     T = values[obj_T]
 
 
-                r = values[obj_r]
+                # compiled models return vectors as one dimensional arrays
+                r = np.asarray(values[obj_r], dtype=float).ravel()
 
                 # copy values from T
                 for i in range(3):
-                    poke.SetElement(i,3,r[i,0])
+                    poke.SetElement(i,3,r[i])
                     for j in range(3):
                         poke.SetElement(i,j,float(T[i,j]))
 
@@ -1321,8 +1327,8 @@ class Gui(QMainWindow, pymbsMainWindow):
 
                     position_as_string = str(position)
 
-                    pos = values[position_as_string]
-                    pos_as_tuple = (pos[0,0],pos[1,0],pos[2,0])
+                    pos = np.asarray(values[position_as_string], dtype=float).ravel()
+                    pos_as_tuple = (pos[0],pos[1],pos[2])
 
                     points.InsertNextPoint(pos_as_tuple)
 
-- 
2.43.0


From 4d43c78e3bf0032e38eea12260c232a27b251ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:55 +0000
Subject: [PATCH 123/126] fix: a state that arrived while the scene was being
 drawn was never drawn

---
 pymbs/ui/gui.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index dee6e75..8b77862 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -1285,6 +1285,9 @@ class Gui(QMainWindow, pymbsMainWindow):
         if not self.qChanged:
             return
 
+        # a state that arrives from now on is drawn the next time
+        self.qChanged = False
+
         q = [self.q[i]*self.qScaling[i] for i in range(self.nq)]
 
         # calculate sensors
@@ -1353,7 +1356,6 @@ class Gui(QMainWindow, pymbsMainWindow):
         # save state and sensor values as class member for recorder
         self.sensorValues = values
         self.sensorState = q[:self.nq]
-        self.qChanged = False
 
 
 
-- 
2.43.0


From 7c6f9514c206d2a36737c859774c5a91fce4dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 124/126] fix: closing the window did not stop the playing of
 results, the program went on

---
 pymbs/ui/gui.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index 8b77862..2b99711 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -1435,12 +1435,15 @@ class Gui(QMainWindow, pymbsMainWindow):
 
     def closeEvent(self, event):
         """
-        Overload closeEvent to stop simulation, in case it was running
-        when the window was closed
+        Overload closeEvent to stop simulation and results, in case they
+        were running when the window was closed
         """
         if self.SimThread.is_alive():
             self.SimThread.stop()
             self.SimThread.join()
+        if self.ResultThread.is_alive():
+            self.ResultThread.stop()
+            self.ResultThread.join()
         event.accept()
 
 
-- 
2.43.0


From 86cb89cd052237b9104110e0d8c07d0da0905ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:31 +0000
Subject: [PATCH 125/126] fix: the window of sensor values did not know the
 inputs, accelerations and forces were shown without them

---
 pymbs/ui/gui.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index 2b99711..78f7d09 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -578,6 +578,11 @@ class Sensors(QDialog):
         for i in range(len(q)):
             q.append(0.0)
 
+        # accelerations and forces depend on the inputs
+        if (self.parent.mod_sensors_input is not None):
+            inputs = {i.name : i.stateVal/i.scale for i in self.parent.inputSliders}
+            self.parent.mod_sensors_input(inputs)
+
         values =  self.parent.mod_sensors(0,q)
 
         ''' Diagramm zeichnen '''
-- 
2.43.0


From dc9b95479986fa78041f679ba1cc9ad42cfdc478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:06 +0000
Subject: [PATCH 126/126] fix: a change of an input during the simulation took
 effect late, the integrator had gone ahead with the former value

---
 pymbs/ui/gui.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index 78f7d09..4757841 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -1117,6 +1117,7 @@ class Gui(QMainWindow, pymbsMainWindow):
             '''
 
             self.integrator = Integrator(self.mod_der_state, q0, qd0)
+            self.simInputs = None
             self.SimThread.reinit()
             self.SimThread.start()
         else:
@@ -1137,6 +1138,11 @@ class Gui(QMainWindow, pymbsMainWindow):
             inputs = {i.name : i.stateVal/i.scale for i in self.inputSliders}
             self.mod_der_state_setInputs(inputs)
 
+            # the integrator has already gone ahead with the former inputs
+            if (inputs != self.simInputs):
+                self.integrator.set_initial_value(self.integrator.y, self.integrator.t)
+                self.simInputs = inputs
+
         # updateScene called by self.updateSceneTimer
         self.q = self.integrator.step()
         self.qChanged = True
-- 
2.43.0

