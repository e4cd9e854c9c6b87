-------------------------------- MODULE Config --------------------------------
(* Which settings are legal.  A value is a record: what it is (t), its number  *)
(* in thousandths (v), its text (s), its members (l); "none" means not there.  *)
EXTENDS Integers, Sequences
There(x) == x.t # "none"
Str(x) == x.t = "s"
Num(x) == x.t \in {"i", "f"}
FloatFrom0(x) == x.t = "f" /\ x.v >= 0
Positive(x) == Num(x) /\ x.v > 0
PositiveFloat(x) == x.t = "f" /\ x.v > 0
AtLeast3(x) == x.t = "i" /\ x.v >= 3000
Fraction(x) == x.v >= 0 /\ x.v < 1000

CameraModels == {"pinhole", "omni", "eucm", "ds"}
NIntrinsics == [m \in CameraModels |-> CASE m = "pinhole" -> 4 [] m = "omni" -> 5 [] OTHER -> 6]
Lens(m, x) ==            \* the last four are always focal lengths and centre
  LET n == NIntrinsics[m] IN
  /\ Len(x) = n
  /\ \A i \in (n - 3)..n : FloatFrom0(x[i])
LegalIntrinsics(m, x) ==
  /\ m \in CameraModels
  /\ Lens(m, x)
  /\ CASE m = "omni" -> x[1].v >= 0
       [] m = "eucm" -> Fraction(x[1]) /\ x[2].v >= 0
       [] m = "ds" -> Fraction(x[2])
       [] OTHER -> TRUE
DistortionModels == {"radtan", "equidistant", "fov", "none"}
NDistortion == [m \in DistortionModels |-> CASE m \in {"radtan", "equidistant"} -> 4 [] m = "fov" -> 1 [] OTHER -> 0]
LegalDistortion(m, x) == m \in DistortionModels /\ Len(x) = NDistortion[m]
LegalResolution(x) == Len(x) = 2 /\ \A i \in 1..2 : x[i].t = "i"

TargetFields == [checkerboard |-> {"targetRows", "targetCols", "rowSpacingMeters", "colSpacingMeters"},
                 circlegrid |-> {"targetRows", "targetCols", "spacingMeters", "asymmetricGrid"},
                 aprilgrid |-> {"tagRows", "tagCols", "tagSize", "tagSpacing"}]
LegalField(k, x) ==
  CASE k \in {"targetRows", "targetCols", "tagRows", "tagCols"} -> AtLeast3(x)
    [] k \in {"rowSpacingMeters", "colSpacingMeters", "spacingMeters", "tagSize", "tagSpacing"} -> PositiveFloat(x)
    [] OTHER -> x.t = "b"

(* Which camera object a legal pair of models stands for; "" = no such object. *)
Objects == [pinhole |-> [radtan |-> "DistortedPinhole", equidistant |-> "EquidistantDistortedPinhole", fov |-> "FovDistortedPinhole", none |-> "Pinhole"],
            omni |-> [radtan |-> "DistortedOmni", equidistant |-> "", fov |-> "", none |-> "Omni"],
            eucm |-> [radtan |-> "", equidistant |-> "", fov |-> "", none |-> "ExtendedUnified"],
            ds |-> [radtan |-> "", equidistant |-> "", fov |-> "", none |-> "DoubleSphere"]]
Projections == [DistortedPinhole |-> "DistortedPinholeProjection", EquidistantDistortedPinhole |-> "EquidistantPinholeProjection",
                FovDistortedPinhole |-> "FovPinholeProjection", Pinhole |-> "PinholeProjection", DistortedOmni |-> "DistortedOmniProjection",
                Omni |-> "OmniProjection", ExtendedUnified |-> "ExtendedUnifiedProjection", DoubleSphere |-> "DoubleSphereProjection"]
Undistorters == [DistortedPinhole |-> "PinholeUndistorterNoMask", EquidistantDistortedPinhole |-> "EquidistantPinholeUndistorterNoMask",
                 FovDistortedPinhole |-> "FovPinholeUndistorterNoMask", DistortedOmni |-> "OmniUndistorterNoMask",
                 Pinhole |-> "", Omni |-> "", ExtendedUnified |-> "", DoubleSphere |-> ""]
Distortions == [radtan |-> "RadialTangentialDistortion", equidistant |-> "EquidistantDistortion", fov |-> "FovDistortion", none |-> ""]
===============================================================================
