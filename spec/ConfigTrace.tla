------------------------------ MODULE ConfigTrace -----------------------------
(* Recorded use of configuration files and of the objects made from them.      *)
EXTENDS Trc, Config, FiniteSets
VARIABLES st, chain
vars == <<l, st, chain>>
None == [t |-> "none", v |-> 0, s |-> "", l |-> <<>>]
Keys == {"rostopic", "camera_model", "intrinsics", "distortion_model", "distortion_coeffs", "resolution", "update_rate",
         "accelerometer_noise_density", "accelerometer_random_walk", "gyroscope_noise_density", "gyroscope_random_walk"}
Blank == [k \in Keys |-> None]
Init == l = 1 /\ st = [kind |-> "", data |-> Blank] /\ chain = [n |-> 0, m |-> {}]
Begin == Is("begin") /\ st' = [kind |-> "", data |-> Blank] /\ chain' = [n |-> 0, m |-> {}] /\ Step

RECURSIVE Same(_, _)          \* the same text, number or members, whether whole or not
Same(a, b) ==
  IF Num(a) /\ Num(b) THEN a.v = b.v
  ELSE /\ a.t = b.t /\ a.v = b.v /\ a.s = b.s /\ Len(a.l) = Len(b.l)
       /\ \A i \in 1..Len(a.l) : Same(a.l[i], b.l[i])
Lst(xs) == [t |-> "l", v |-> 0, s |-> "", l |-> xs]
Root(r) == CHOOSE k \in 1..40 : k * k * 1000 = r.v
Discrete(n, r) == [t |-> "f", v |-> n.v * Root(r), s |-> "", l |-> <<>>]

(* What a getter answers for these data: legal, and the value then. *)
ModelOk(d) == There(d.camera_model) /\ There(d.intrinsics) /\ LegalIntrinsics(d.camera_model.s, d.intrinsics.l)
DistOk(d) == There(d.distortion_model) /\ There(d.distortion_coeffs) /\ LegalDistortion(d.distortion_model.s, d.distortion_coeffs.l)
RateOk(d) == There(d.update_rate) /\ Positive(d.update_rate)
StatOk(d, a, b) == There(d[a]) /\ There(d[b]) /\ Positive(d[a]) /\ Positive(d[b]) /\ RateOk(d)
AN == "accelerometer_noise_density"
AW == "accelerometer_random_walk"
GN == "gyroscope_noise_density"
GW == "gyroscope_random_walk"
Legal(g, d) ==
  CASE g = "RosTopic" -> Str(d.rostopic)
    [] g = "Intrinsics" -> ModelOk(d)
    [] g = "Distortion" -> DistOk(d)
    [] g = "Resolution" -> There(d.resolution) /\ LegalResolution(d.resolution.l)
    [] g = "UpdateRate" -> RateOk(d)
    [] g = "AccelerometerStatistics" -> StatOk(d, AN, AW)
    [] g = "GyroStatistics" -> StatOk(d, GN, GW)
Value(g, d) ==
  CASE g = "RosTopic" -> d.rostopic
    [] g = "Intrinsics" -> Lst(<<d.camera_model, d.intrinsics>>)
    [] g = "Distortion" -> Lst(<<d.distortion_model, d.distortion_coeffs>>)
    [] g = "Resolution" -> d.resolution
    [] g = "UpdateRate" -> d.update_rate
    [] g = "AccelerometerStatistics" -> Lst(<<Discrete(d[AN], d.update_rate), d[AW], d[AN]>>)
    [] g = "GyroStatistics" -> Lst(<<Discrete(d[GN], d.update_rate), d[GW], d[GN]>>)
Answer(g, d, a) ==
  IF Legal(g, d)
  THEN Chk("what is legal is read: " \o g, a.how = "ok") /\ Chk("value of " \o g, Same(a.val, Value(g, d)))
  ELSE Chk("a refusal that says so: " \o g, a.how = "refused")

TypeOk(d) == Str(d.target_type) /\ d.target_type.s \in DOMAIN TargetFields
TargetOk(d) == TypeOk(d) /\ \A k \in TargetFields[d.target_type.s] : LegalField(k, d[k])
Target(d, a) ==
  /\ IF TypeOk(d) THEN Chk("type of target", a.getTargetType.how = "ok" /\ Same(a.getTargetType.val, d.target_type))
     ELSE Chk("an unknown type of target is refused", a.getTargetType.how = "refused")
  /\ IF TargetOk(d)
     THEN LET t == a.getTargetParams IN
          /\ Chk("a legal target is read", t.how = "ok")
          /\ Chk("parameters of the target",
                 /\ DOMAIN t.fields = TargetFields[d.target_type.s] \cup {"targetType"}
                 /\ \A k \in TargetFields[d.target_type.s] : Same(t.fields[k], d[k])
                 /\ Same(t.fields["targetType"], d.target_type))
     ELSE Chk("an illegal target is refused", a.getTargetParams.how = "refused")

ConfigOp == Is("config") /\
  LET d == Line.data
      a == Line.got
  IN /\ CASE Line.kind = "camera" -> /\ Answer("RosTopic", d, a.getRosTopic) /\ Answer("Intrinsics", d, a.getIntrinsics)
                                     /\ Answer("Distortion", d, a.getDistortion) /\ Answer("Resolution", d, a.getResolution)
                                     /\ Chk("details of a legal camera", (ModelOk(d) /\ DistOk(d) /\ Legal("Resolution", d)) => Line.details = "ok")
          [] Line.kind = "imu" -> /\ Answer("RosTopic", d, a.getRosTopic) /\ Answer("UpdateRate", d, a.getUpdateRate)
                                  /\ Answer("AccelerometerStatistics", d, a.getAccelerometerStatistics) /\ Answer("GyroStatistics", d, a.getGyroStatistics)
                                  /\ Chk("details of a legal IMU", (Legal("AccelerometerStatistics", d) /\ Legal("GyroStatistics", d)) => Line.details = "ok")
          [] Line.kind = "target" -> /\ Target(d, a)
                                     /\ Chk("details of a legal target", TargetOk(d) => Line.details = "ok")
     /\ Chk("read again it answers the same", Line.same)
     /\ Chk("a file that is not there is refused", Line.gone = "refused")
     /\ UNCHANGED <<st, chain>>
     /\ Step

Floats(xs, a, b) == SubSeq(xs, a, b)
Equal(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : Same(xs[i], ys[i])
Made(m, o, args, dn, dargs) ==
  IF o = ""
  THEN Chk("an impossible camera is refused", m.how = "refused")
  ELSE /\ Chk("a legal camera is made", m.how = "ok")
       /\ Chk("camera of its model", m.geometry = o \o "CameraGeometry" /\ m.projection = Projections[o])
       /\ Chk("intrinsics and resolution of the camera", Equal(m.args, args))
       /\ Chk("distortion of the camera", m.dist = dn /\ (dn # "" => Equal(m.dargs, dargs)))
       /\ Chk("frame and error of the camera", m.frameType = o \o "Frame" /\ m.keypointType = "Keypoint2" /\ m.reprojectionErrorType = o \o "ReprojectionErrorSimple")
       /\ Chk("undistorter of the camera", m.undistorterType = Undistorters[o])
CameraOp == Is("camera") /\
  LET d == Line.data
      ok == ModelOk(d) /\ DistOk(d) /\ Legal("Resolution", d)
      dm == d.distortion_model.s
  IN /\ IF ok THEN Made(Line.made, Objects[d.camera_model.s][dm], d.intrinsics.l \o d.resolution.l, Distortions[dm], d.distortion_coeffs.l)
        ELSE Made(Line.made, "", <<>>, "", <<>>)
     /\ UNCHANGED <<st, chain>>
     /\ Step
MakeOp == Is("make") /\
  LET known == Line.model \in CameraModels /\ Line.dist \in DistortionModels IN
  /\ IF known THEN Made(Line.made, Objects[Line.model][Line.dist], Line.args, Distortions[Line.dist], Line.dargs)
     ELSE Made(Line.made, "", <<>>, "", <<>>)
  /\ UNCHANGED <<st, chain>>
  /\ Step

New == Is("new") /\ st' = [kind |-> Line.kind, data |-> Blank] /\ UNCHANGED chain /\ Step
Fields(f) ==
  CASE f = "RosTopic" -> <<"rostopic">>
    [] f = "Intrinsics" -> <<"camera_model", "intrinsics">>
    [] f = "Distortion" -> <<"distortion_model", "distortion_coeffs">>
    [] f = "Resolution" -> <<"resolution">>
    [] f = "UpdateRate" -> <<"update_rate">>
    [] f = "AccelerometerStatistics" -> <<AN, AW>>
    [] f = "GyroStatistics" -> <<GN, GW>>
SetOp == Is("set") /\ st.kind # "" /\
  LET ks == Fields(Line.f)
      with == [k \in Keys |-> IF \E i \in 1..Len(ks) : ks[i] = k THEN Line.args[CHOOSE i \in 1..Len(ks) : ks[i] = k] ELSE st.data[k]]
      fit == [with EXCEPT !.update_rate = IF Line.f = "UpdateRate" THEN @ ELSE [t |-> "i", v |-> 1000, s |-> "", l |-> <<>>]]
  IN \E ok \in {Legal(Line.f, fit)} :
       /\ IF ok THEN Chk("what is legal can be set", Line.how = "ok") ELSE Chk("an illegal setting is refused", Line.how = "refused")
       /\ \E d \in {IF ok THEN with ELSE st.data} : Answer(Line.f, d, Line.got) /\ st' = [st EXCEPT !.data = d]
       /\ UNCHANGED chain
       /\ Step

Chain == Is("chain") /\ Chk("number of cameras", Line.count = Line.n) /\ chain' = [n |-> Line.n, m |-> {}] /\ UNCHANGED st /\ Step
Rewrite == Is("rewrite") /\ Chk("number of cameras read back", Line.count = chain.n) /\ UNCHANGED <<st, chain>> /\ Step
What(f) == CASE f \in {"setExtrinsicsLastCamToHere", "getExtrinsicsLastCamToHere"} -> "baseline"
             [] f \in {"setExtrinsicsImuToCam", "getExtrinsicsImuToCam"} -> "imu"
             [] f \in {"setTimeshiftCamImu", "getTimeshiftCamImu"} -> "shift"
             [] f \in {"setCamOverlaps", "getCamOverlaps"} -> "overlaps"
             [] OTHER -> "camera"
Setting == {"setExtrinsicsLastCamToHere", "setExtrinsicsImuToCam", "setTimeshiftCamImu", "setCamOverlaps"}
ChOp == Is("ch") /\
  LET w == What(Line.f)
      in == Line.cam < chain.n /\ ~(w = "baseline" /\ Line.cam = 0)
      x == Line.arg
  IN IF Line.f \in Setting
     THEN LET ok == in /\ CASE w \in {"baseline", "imu"} -> Line.legal
                            [] w = "shift" -> x.t = "f"
                            [] OTHER -> \A i \in 1..Len(x.l) : x.l[i].v < 1000 * chain.n
          IN /\ Chk("set " \o w \o " of a camera", (Line.how = "ok") = ok)
             /\ chain' = IF ok THEN [chain EXCEPT !.m = {e \in @ : ~(e[1] = Line.cam /\ e[2] = w)} \cup {<<Line.cam, w, x>>}] ELSE chain
             /\ UNCHANGED st /\ Step
     ELSE /\ IF w = "camera"
             THEN IF in THEN Chk("the camera of that number", Line.how = "ok" /\ Line.got.s = "/cam" \o ToString(Line.cam))
                  ELSE Chk("no such camera", Line.how = "refused")
             ELSE LET es == {e \in chain.m : e[1] = Line.cam /\ e[2] = w} IN
                  IF in /\ es # {} THEN Chk(w \o " as it was set", Line.how = "ok" /\ \A e \in es : Same(Line.got, e[3]))
                  ELSE Chk(w \o " that was never set", Line.how = "refused")
          /\ UNCHANGED <<st, chain>> /\ Step
Next == Begin \/ ConfigOp \/ CameraOp \/ MakeOp \/ New \/ SetOp \/ Chain \/ Rewrite \/ ChOp
===============================================================================
