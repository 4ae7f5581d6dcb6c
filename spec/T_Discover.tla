------------------------------- MODULE T_Discover --------------------------------
(* Recorded requests for templates, combined type names, headers and template files. *)
EXTENDS TraceBase
VARIABLE l
NFiles == 0
MaxT == 0
NoPad == FALSE
ByType == FALSE
used == <<>>
hdr == {}
back == <<>>
phase == ""
D == INSTANCE Discover
Names(e) == [i \in 1 .. Len(D!Names(e.entries)) |-> D!Names(e.entries)[i]]
Judge(e) ==
    IF e.kind = "find" THEN LET x == D!Find(e.r) IN
        << <<"a request with missing files is refused", x = D!Refused => ~e.ok>>,
           <<"a request for existing files is answered", x # D!Refused => e.ok>>,
           <<"exactly the requested files in order", (x # D!Refused /\ e.ok) => e.out = x[2]>> >>
    ELSE IF e.kind = "load" THEN
        << <<"the requested templates are loaded in order", e.ok /\ e.out = e.want>>,
           <<"templates by type are the loaded ones", e.dict>> >>
    ELSE IF e.kind = "type" THEN
        << <<"type and subtype survive the combined name", e.back = <<e.type, e.sub>> >>,
           <<"a type without subtype is its own name", (e.sub = "") => e.full = e.type>>,
           <<"different types have different names", e.other # <<e.type, e.sub>> => e.full # e.otherfull>> >>
    ELSE IF e.kind = "header" THEN
        << <<"a header that does not tell the file is refused", D!HeaderRefused(e.entries) => ~e.ok>>,
           <<"a header leads to the files it tells in order", (~D!HeaderRefused(e.entries)) => e.ok /\ e.out = Names(e)>>,
           <<"files are in the template directory", e.ok => e.dir>> >>
    ELSE IF e.kind = "file" THEN
        << <<"a template that does not state what is needed is refused", ~D!Usable(e.f) => ~e.ok>>,
           <<"a complete template is accepted", D!Usable(e.f) => e.ok>>,
           <<"type, subtype, version, method and absorption are those of the file", (e.ok /\ D!Usable(e.f)) =>
                e.type = e.f.type /\ e.sub = e.f.sub /\ e.ver = (IF e.f.ver = "" THEN "unknown" ELSE e.f.ver) /\ e.igm = D!Igm(e.f) /\ e.method = D!Method(e.f)>>,
           <<"wavelengths and basis are those of the file", (e.ok /\ D!Usable(e.f)) => e.data>>,
           <<"redshifts are those of the file or the range asked for", (e.ok /\ D!Usable(e.f)) =>
                IF e.f.z THEN e.zsame
                ELSE LET r == IF e.asked # <<>> THEN e.asked ELSE D!Range(e.f.type) IN
                     /\ Abs(e.first - r[1]) <= 2 /\ e.last < r[2] + 2 /\ Abs(e.step - r[3]) <= 1 /\ e.uniform
                     /\ e.last + e.stepz >= r[2] - 3>> >>
    ELSE \* a run: the header of the result leads back to the templates used
        << <<"the run completes", e.ok>>,
           <<"the header has the versions of the templates", e.ok => e.vers>>,
           <<"the header of the result leads back to the templates used", e.ok => e.back = e.used>>,
           <<"the model file records the same templates", e.ok => e.model = e.used>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
