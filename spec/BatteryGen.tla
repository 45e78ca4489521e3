----------------------------- MODULE BatteryGen -----------------------------
(* hands the battery to the driver *)
EXTENDS Battery, Json
VARIABLE x
GInit == \E i \in DOMAIN Problems : x = Problems[i]
GNext == FALSE /\ x' = x
Show == PrintT(<<"BATTERY", ToJson(x)>>)
=============================================================================
