---- MODULE BigTest ----
EXTENDS Big, TLC, Json
VARIABLE x
\* base check on small numbers vs TLC ints
V(z) == IF z[1]=1 THEN -(Dig(z[2],1)+4096*Dig(z[2],2)) ELSE Dig(z[2],1)+4096*Dig(z[2],2)
R == {-4100,-4097,-4096,-4095,-17,-16,-15,-3,-2,-1,0,1,2,3,15,16,17,255,256,4095,4096,4097,5000}
ASSUME \A a \in R : V(IntN(a))=a /\ IsInt(IntN(a))
ASSUME \A a,b \in R : V(Add(IntN(a),IntN(b)))=a+b /\ IsInt(Add(IntN(a),IntN(b)))
ASSUME \A a,b \in R : V(Sub(IntN(a),IntN(b)))=a-b
ASSUME \A a,b \in R : Mul(IntN(a),IntN(b))=IntN(a*b)
ASSUME \A a,b \in R : Cmp(IntN(a),IntN(b))=(IF a<b THEN -1 ELSE IF a=b THEN 0 ELSE 1)
ASSUME \A a \in R, n \in 0..14 : a*(2^n) \in -16000000..16000000 => Shl(IntN(a),n)=IntN(a*(2^n))
ASSUME \A a \in R, n \in 0..14 : ShrFloor(IntN(a),n)=IntN(a \div 2^n)
ASSUME \A a,b \in R : b # 0 => LET q0 == (IF a<0 THEN -a ELSE a) \div (IF b<0 THEN -b ELSE b)  q == IF (a<0) # (b<0) THEN -q0 ELSE q0  r == a-q*b IN DivOk(IntN(a),IntN(b),IntN(q),IntN(r)) /\ Trunc(IntN(a),IntN(b),IntN(q)) /\ ~Trunc(IntN(a),IntN(b),IntN(q+1)) /\ ~Trunc(IntN(a),IntN(b),IntN(q-1))
TC(a,w) == (a % 2^w)
ASSUME \A a \in R : ToTwos(IntN(a),9) = NN(a % 512) /\ Wrap(IntN(a),9,1) = (LET m == a % 512 IN IntN(IF m>=256 THEN m-512 ELSE m)) /\ Wrap(IntN(a),9,0) = IntN(a%512)
ASSUME \A a \in R : Fits(IntN(a),13,1) = (a \in -4096..4095) /\ Fits(IntN(a),12,0) = (a \in 0..4095)
ASSUME \A a \in R : Clamp(IntN(a),5,1) = IntN(IF a < -16 THEN -16 ELSE IF a > 15 THEN 15 ELSE a)
ASSUME \A a,b \in R : LET w == 2^14 IN ZAnd(IntN(a),IntN(b)) = (LET m == ((a % w) & (b % w)) IN IntN(IF m >= w \div 2 THEN m-w ELSE m))
ASSUME \A a,b \in R : Add(ZOr(IntN(a),IntN(b)),ZAnd(IntN(a),IntN(b))) = IntN(a+b)
ASSUME \A a,b \in R : Sub(ZOr(IntN(a),IntN(b)),ZAnd(IntN(a),IntN(b))) = ZXor(IntN(a),IntN(b))
ASSUME \A a \in R : ZNot(IntN(a)) = IntN(-a-1)
ASSUME NFromDigits(<<4,0,9,6,3,1,2>>,10) = NMulAdd(NN(4096),1000,312)
ASSUME \A a \in R : a>=0 => NBitLen(NN(a)) = (CHOOSE n \in 0..14 : a < 2^n /\ (n=0 \/ 2^(n-1) <= a))
ASSUME Pow(IntN(-3),5)=IntN(-243) /\ Pow(IntN(0),0)=Z1 /\ Pow(IntN(-2),10) = IntN(1024)
ASSUME \A n \in {1188, 1200, 1201, 1800, 2413} :       \* (2^n - 1)^2 = 2^2n - 2^(n+1) + 1, over several blocks
  LET m == NSub(NShl(<<1>>, n), <<1>>)
  IN NAdd(NMul(m, m), NShl(<<1>>, n + 1)) = NAdd(NShl(<<1>>, 2 * n), <<1>>)
Init == x=0
Next == UNCHANGED x
====
