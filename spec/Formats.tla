------------------------------ MODULE Formats ------------------------------
(* The layouts of the binary file formats: which blocks a file consists of,
   as a function of its counts and of the options of the format, and what a
   reader must return for them.

   A case c describes a file: c.fmt the format, c.opt its options, c.n the
   counts, c.order the byte order of the file ("<" or ">"), c.vals values
   which the generator wants in some blocks (a record from block name to
   sequence of small integers).                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>>
            ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET h == Len(ss) \div 2
                 IN Flat(SubSeq(ss, 1, h)) \o Flat(SubSeq(ss, h + 1, Len(ss)))
If(b, s) == IF b THEN s ELSE <<>>
Rep(x, n) == [i \in 1..n |-> x]

---------------------------------------------------------------------------
(* Items.  n name ("" if the reader does not show it), a attribute?, k kind
   ("i", "u", "f", "S" text, "V" structure, "m" record marker, "p" padding),
   w bytes per element, d dimensions, v values (<<>>: any), f fields of a
   structure: sequence of [n, k, w, d, o].                                 *)
It(n, a, k, w, d, v) == [n |-> n, a |-> a, k |-> k, w |-> w, d |-> d, v |-> v, f |-> <<>>]
D(n, k, w, d) == It(n, FALSE, k, w, d, <<>>)
H(n, k, w, v) == It(n, FALSE, k, w, <<>>, <<v>>)        \* scalar with a given value
A(n, k, w, d) == It("Header/" \o n, TRUE, k, w, d, <<>>)
AV(n, k, w, d, v) == It("Header/" \o n, TRUE, k, w, d, v)
Pad(n) == It("", FALSE, "p", 1, <<n>>, <<>>)
Size(it) == it.w * Prod(it.d)
Total(items) == SumSeq([i \in DOMAIN items |-> Size(items[i])])
Marker(v) == It("", FALSE, "m", 4, <<>>, <<v>>)
Rec(items) == <<Marker(Total(items))>> \o items \o <<Marker(Total(items))>>
Recs(items) == Flat([i \in DOMAIN items |-> Rec(<<items[i]>>)])

\* structures: fields in order, with or without alignment
RoundUp(o, a) == ((o + a - 1) \div a) * a
RECURSIVE Place(_, _, _)
Place(fs, o, align) ==
    IF fs = <<>> THEN <<>>
    ELSE LET g == Head(fs)
             at == IF align THEN RoundUp(o, g.w) ELSE o
         IN <<[n |-> g.n, k |-> g.k, w |-> g.w, d |-> g.d, o |-> at]>> \o Place(Tail(fs), at + Size(g), align)
Struct(n, fs, d, align) ==
    LET p == Place(fs, 0, align)
        last == p[Len(p)]
        end == last.o + last.w * Prod(last.d)
    IN [n |-> n, a |-> FALSE, k |-> "V", w |-> IF align THEN RoundUp(end, 8) ELSE end, d |-> d, v |-> <<>>, f |-> p]
i4(n) == D(n, "i", 4, <<>>)
i8(n) == D(n, "i", 8, <<>>)
u4(n) == D(n, "u", 4, <<>>)
u8(n) == D(n, "u", 8, <<>>)
f4(n) == D(n, "f", 4, <<>>)
f8(n) == D(n, "f", 8, <<>>)
f4s(n, d) == D(n, "f", 4, d)
f8s(n, d) == D(n, "f", 8, d)

---------------------------------------------------------------------------
(* L-Gadget2 and L-SubFind (Millennium)                                    *)
LG2GroupTab(o, n) ==
    <<H("Ngroups", "i", 4, n.g), H("Nids", "i", 4, n.ids), H("TotNgroups", "i", 4, n.totg), H("NTask", "i", 4, n.files),
      D("GroupLen", "i", 4, <<n.g>>), D("GroupOffset", "i", 4, <<n.g>>),
      H("GroupMinLen", "i", 4, n.min), D("Count", "i", 4, <<n.min>>)>>
LG2GroupIDs(o, n) ==
    <<H("Ngroups", "i", 4, n.g), H("Nids", "i", 4, n.ids), H("TotNgroups", "i", 4, n.totg), H("NTask", "i", 4, n.files),
      D("GroupIDs", "u", o.id, <<n.ids>>)>>
LG2SubIDs(o, n) ==
    <<H("Ngroups", "i", 4, n.g), H("Nids", "i", 4, n.ids), H("TotNgroups", "i", 4, n.totg), H("NFiles", "i", 4, n.files),
      D("GroupIDs", "u", o.id, <<n.ids>>)>>
LG2SubTab(o, n) ==
    LET g == <<n.g>>  s == <<n.s>>  s3 == <<n.s, 3>> IN
    <<H("Ngroups", "i", 4, n.g), H("Nids", "i", 4, n.ids), H("TotNgroups", "i", 4, n.totg), H("NFiles", "i", 4, n.files),
      H("Nsubhalos", "i", 4, n.s),
      D("NsubPerHalo", "i", 4, g), D("FirstSubOfHalo", "i", 4, g),
      D("SubLen", "i", 4, s), D("SubOffset", "i", 4, s), D("SubParentHalo", "i", 4, s),
      D("Halo_M_Mean200", "f", 4, g), D("Halo_R_Mean200", "f", 4, g), D("Halo_M_Crit200", "f", 4, g),
      D("Halo_R_Crit200", "f", 4, g), D("Halo_M_TopHat200", "f", 4, g), D("Halo_R_TopHat200", "f", 4, g),
      D("SubPos", "f", 4, s3), D("SubVel", "f", 4, s3), D("SubVelDisp", "f", 4, s), D("SubVmax", "f", 4, s),
      D("SubSpin", "f", 4, s3), D("SubMostBoundID", "u", o.id, s), D("SubHalfMass", "f", 4, s)>>
\* n.cells hash cells from n.first on; n.p particles of type 1
LG2Snapshot(o, n) ==
    Rec(<<AV("NumPart_ThisFile", "u", 4, <<6>>, <<0, n.p, 0, 0, 0, 0>>), A("MassTable", "f", 8, <<6>>), A("Time", "f", 8, <<>>),
          A("Redshift", "f", 8, <<>>), A("Flag_Sfr", "i", 4, <<>>), A("Flag_Feedback", "i", 4, <<>>),
          AV("NumPart_Total", "u", 4, <<6>>, <<0, n.totp, 0, 0, 0, 0>>), A("Flag_Cooling", "i", 4, <<>>),
          AV("NumFilesPerSnapshot", "i", 4, <<>>, <<n.files>>), AV("BoxSize", "f", 8, <<>>, <<n.box>>), A("Omega0", "f", 8, <<>>),
          A("OmegaLambda", "f", 8, <<>>), A("HubbleParam", "f", 8, <<>>), A("Flag_StellarAge", "i", 4, <<>>),
          A("Flag_Metals", "i", 4, <<>>), AV("HashTabSize", "i", 4, <<>>, <<n.hash>>), A("fill", "u", 1, <<84>>)>>)
    \o Recs(<<D("PartType1/Coordinates", "f", 4, <<n.p, 3>>), D("PartType1/Velocities", "f", 4, <<n.p, 3>>),
              D("PartType1/ParticleIDs", "u", 8, <<n.p>>)>>)
    \o Rec(<<H("first_hash_cell", "i", 4, n.first), H("last_hash_cell", "i", 4, n.first + n.cells - 1)>>)
    \o Rec(<<D("blockid", "i", 4, <<n.cells>>)>>)

(* L-Gadget3 (MXXL, P-Millennium)                                          *)
LG3SubTab(o, n) ==
    LET g == <<n.g>>  g3 == <<n.g, 3>>  s == <<n.s>>  s3 == <<n.s, 3>>  F(x, d) == D(x, "f", o.fl, d) IN
    <<H("Ngroups", "i", 4, n.g), H("TotNgroups", "i", 8, n.totg), H("Nids", "i", 4, n.ids), H("TotNids", "i", 8, n.totids),
      H("NTask", "i", 4, n.files), H("Nsubgroups", "i", 4, n.s), H("TotNsubgroups", "i", 8, n.tots),
      D("GroupLen", "i", 4, g), D("GroupOffset", "i", 4, g), D("GroupNr", "i", 8, g),
      F("GroupCofM", g3), F("GroupVel", g3), F("GroupPos", g3),
      F("Halo_M_Mean200", g), F("Halo_M_Crit200", g), F("Halo_M_TopHat200", g), F("GroupVelDisp", g)>>
    \o If(o.veldisp, <<F("VelDisp_Mean200", g), F("VelDisp_Crit200", g), F("VelDisp_TopHat200", g)>>)
    \o <<D("Nsubs", "i", 4, g), D("FirstSub", "i", 4, g),
      D("SubLen", "i", 4, s), D("SubOffset", "i", 4, s), D("SubGrNr", "i", 8, s), D("SubNr", "i", 8, s),
      F("SubPos", s3), F("SubVel", s3), F("SubCofM", s3), F("SubSpin", s3),
      F("SubVelDisp", s), F("SubVmax", s), F("SubRVmax", s), F("SubHalfMass", s)>>
    \o If(o.shapes, <<F("SubShape", <<n.s, 6>>)>>)
    \o <<F("SubBindingEnergy", s), F("SubPotentialEnergy", s), F("SubProfile", <<n.s, 9>>)>>
LG3SubIDs(o, n) ==
    <<H("Ngroups", "i", 4, n.g), H("TotNgroups", "i", 8, n.totg), H("Nids", "i", 4, n.ids), H("TotNids", "i", 8, n.totids),
      H("NTask", "i", 4, n.files), H("NidsPrevious", "i", 8, n.prev), D("GroupIDs", "u", o.id, <<n.ids>>)>>

(* P-Gadget3 (Millennium-2, Aquarius)                                      *)
PG3IDs(o, n) ==
    <<H("Ngroups", "i", 4, n.g), H("TotNgroups", "i", 4, n.totg), H("Nids", "i", 4, n.ids), H("TotNids", "i", 8, n.totids),
      H("NTask", "i", 4, n.files), H("SendOffset", "i", 4, n.prev), D("GroupIDs", "u", o.id, <<n.ids>>)>>
PG3GroupTab(o, n) ==
    LET g == <<n.g>>  F(x, d) == D(x, "f", o.fl, d) IN
    <<H("Ngroups", "i", 4, n.g), H("TotNgroups", "i", 4, n.totg), H("Nids", "i", 4, n.ids), H("TotNids", "i", 8, n.totids),
      H("NTask", "i", 4, n.files),
      D("GroupLen", "i", 4, g), D("GroupOffset", "u", 4, g), F("GroupMass", g), F("GroupCofM", <<n.g, 3>>),
      F("GroupVel", <<n.g, 3>>), D("GroupLenType", "i", 4, <<n.g, 6>>), F("GroupMassType", <<n.g, 6>>)>>
PG3SubTab(o, n) ==
    LET g == <<n.g>>  s == <<n.s>>  s3 == <<n.s, 3>>  F(x, d) == D(x, "f", o.fl, d) IN
    <<H("Ngroups", "i", 4, n.g), H("TotNgroups", "i", 4, n.totg), H("Nids", "i", 4, n.ids), H("TotNids", "i", 8, n.totids),
      H("NTask", "i", 4, n.files), H("Nsubgroups", "i", 4, n.s), H("TotNsubgroups", "i", 4, n.tots),
      D("GroupLen", "i", 4, g), D("GroupOffset", "u", 4, g), F("GroupMass", g), F("GroupPos", <<n.g, 3>>),
      F("Halo_M_Mean200", g), F("Halo_R_Mean200", g), F("Halo_M_Crit200", g), F("Halo_R_Crit200", g),
      F("Halo_M_TopHat200", g), F("Halo_R_TopHat200", g)>>
    \o If(o.veldisp, <<F("VelDisp_Mean200", g), F("VelDisp_Crit200", g), F("VelDisp_TopHat200", g)>>)
    \o <<D("ContaminationLen", "i", 4, g), F("ContaminationMass", g), D("Nsubs", "i", 4, g), D("FirstSub", "i", 4, g),
      D("SubLen", "i", 4, s), D("SubOffset", "i", 4, s), D("SubParent", "i", 4, s), F("SubMass", s),
      F("SubPos", s3), F("SubVel", s3), F("SubCofM", s3), F("SubSpin", s3),
      F("SubVelDisp", s), F("SubVmax", s), F("SubRVmax", s), F("SubHalfMass", s),
      D("SubMostBoundID", "u", o.id, s), D("SubGrNr", "i", 4, s)>>

(* Gadget-4 binary catalogues (COCO): Fortran records; blocks of groups and
   of subgroups only if there are any                                      *)
G4SubTab(o, n) ==
    LET g == <<n.g>>  s == <<n.s>>  fl == IF n.dp = 0 THEN 4 ELSE 8  F(x, d) == D(x, "f", fl, d) IN
    Rec(<<H("Ngroups", "i", 4, n.g), H("Nsubgroups", "i", 4, n.s), H("Nids", "i", 4, n.ids), H("TotNgroups", "i", 4, n.totg),
          H("TotNsubgroups", "i", 4, n.tots), H("TotNids", "i", 4, n.totids), H("NFiles", "i", 4, n.files), i4("padding1"),
          f8("Time"), f8("Redshift"), f8("HubbleParam"), f8("BoxSize"), f8("Omega0"), f8("OmegaLambda"),
          H("flag_dp", "i", 4, n.dp), i4("padding2")>>)
    \o If(n.g > 0, Recs(<<D("GroupLen", "i", 4, g), F("GroupMass", g), F("GroupPos", <<n.g, 3>>), F("GroupVel", <<n.g, 3>>),
          D("GroupLenType", "i", 4, <<n.g, 6>>), F("GroupMassType", <<n.g, 6>>),
          F("Halo_M_Mean200", g), F("Halo_R_Mean200", g), F("Halo_M_Crit200", g), F("Halo_R_Crit200", g),
          F("Halo_M_TopHat200", g), F("Halo_R_TopHat200", g), D("Nsubs", "i", 4, g), D("FirstSub", "i", 4, g)>>))
    \o If(n.s > 0, Recs(<<D("SubLen", "i", 4, s), F("SubMass", s), F("SubPos", <<n.s, 3>>), F("SubVel", <<n.s, 3>>),
          D("SubLenType", "i", 4, <<n.s, 6>>), F("SubMassType", <<n.s, 6>>), F("SubCofM", <<n.s, 3>>), F("SubSpin", <<n.s, 3>>),
          F("SubVelDisp", s), F("SubVmax", s), F("SubRVmax", s), F("SubHalfMassRad", s), F("SubHalfMassRadType", <<n.s, 6>>),
          F("SubMassInRad", s), F("SubMassInRadType", <<n.s, 6>>), D("SubMostBoundID", "u", o.id, s),
          D("SubGrNr", "i", 4, s), D("SubParent", "i", 4, s)>>))

(* Gadget snapshots, type 1.  n.type: particles of the six types; n.mass:
   the mass table (integers); o.w: bytes of each block which is in the file,
   in order (the first three always, of those which have particles);
   o.extra: further blocks [n, int, d, types].                             *)
TypeBlock(b, w, n) ==
    Rec(Flat([t \in 1..6 |-> If(b.types[t] /\ n.type[t] > 0,
        <<D("PartType" \o ToString(t - 1) \o "/" \o b.n, IF b.int THEN "i" ELSE "f", w, <<n.type[t]>> \o b.d)>>)]))
All6 == <<TRUE, TRUE, TRUE, TRUE, TRUE, TRUE>>
GasOnly == <<TRUE, FALSE, FALSE, FALSE, FALSE, FALSE>>
Blk(n, int, d, types) == [n |-> n, int |-> int, d |-> d, types |-> types]
Has(b, n) == \E t \in 1..6 : b.types[t] /\ n.type[t] > 0
GadgetBlocks(o, n) ==
    SelectSeq(<<Blk("Coordinates", FALSE, <<3>>, All6), Blk("Velocities", FALSE, <<3>>, All6), Blk("ParticleIDs", TRUE, <<>>, All6),
                Blk("Masses", FALSE, <<>>, [t \in 1..6 |-> n.mass[t] = 0]),
                Blk("InternalEnergy", FALSE, <<>>, GasOnly), Blk("Density", FALSE, <<>>, GasOnly),
                Blk("SmoothingLength", FALSE, <<>>, GasOnly)>> \o o.extra, LAMBDA b : Has(b, n))
Min2(a, b) == IF a < b THEN a ELSE b
Gadget(o, n) ==
    Rec(<<AV("NumPart_ThisFile", "i", 4, <<6>>, n.type), AV("MassTable", "f", 8, <<6>>, n.mass), A("Time", "f", 8, <<>>),
          A("Redshift", "f", 8, <<>>), A("Flag_Sfr", "i", 4, <<>>), A("Flag_Feedback", "i", 4, <<>>),
          AV("NumPart_Total", "u", 4, <<6>>, n.tot), A("Flag_Cooling", "i", 4, <<>>),
          AV("NumFilesPerSnapshot", "i", 4, <<>>, <<n.files>>), A("BoxSize", "f", 8, <<>>), A("Omega0", "f", 8, <<>>),
          A("OmegaLambda", "f", 8, <<>>), A("HubbleParam", "f", 8, <<>>), A("Flag_StellarAge", "i", 4, <<>>),
          A("Flag_Metals", "i", 4, <<>>), AV("NumPart_Total_HighWord", "u", 4, <<6>>, <<0, 0, 0, 0, 0, 0>>),
          Pad(64)>>)
    \o Flat([i \in 1..Min2(Len(o.w), Len(GadgetBlocks(o, n))) |-> TypeBlock(GadgetBlocks(o, n)[i], o.w[i], n)])

(* merger tree files                                                       *)
SubDesc(o, n) == <<H("TotNsubhalos", "i", 4, n.s), D("HaloIndex", "i", 4, <<n.s>>), D("SnapNum", "i", 4, <<n.s>>)>>
MxxlSubDesc(o, n) == <<H("Nsubgroups", "i", 4, n.s), D("SubMostBoundID", "u", 8, <<n.s>>), D("Desc_FileNr", "i", 4, <<n.s>>),
                       D("Desc_SubIndex", "i", 4, <<n.s>>)>>
TreeAux(o, n) ==
    <<H("TotHalos", "i", 4, n.halos), H("Totunique", "i", 4, n.ids), H("Ntrees", "i", 4, n.trees), H("TotSnaps", "i", 4, n.snaps),
      D("CountID_Snap", "i", 4, <<n.snaps>>), D("OffsetID_Snap", "i", 4, <<n.snaps>>),
      D("CountID_SnapTree", "i", 4, <<n.snaps, n.trees>>), D("OffsetID_SnapTree", "i", 4, <<n.snaps, n.trees>>),
      D("Nunique", "i", 4, <<n.halos>>), D("OffsetID_Halo", "i", 4, <<n.halos>>),
      D("IDs", "u", o.id, <<n.ids>>), D("Pos", "f", 4, <<n.ids, 3>>), D("Vel", "f", 8, <<n.ids, 3>>)>>
Tree(o, n) ==
    <<H("Ntrees", "i", 4, n.trees), H("Nhalos", "i", 4, n.halos), D("NPerTree", "i", 4, <<n.trees>>),
      Struct("HaloList",
        <<i4("Descendant"), i4("FirstProgenitor"), i4("NextProgenitor"), i4("FirstHaloInFOFgroup"), i4("NextHaloInFOFgroup"),
          i4("Len"), f4("M_Mean200"), f4("M_Crit200"), f4("M_TopHat"), f4s("Pos", <<3>>), f4s("Vel", <<3>>), f4("VelDisp"),
          f4("VMax"), f4s("Spin", <<3>>), D("MostBoundID", "u", o.id, <<>>), i4("SnapNum"), i4("FileNr"), i4("SubhaloIndex"),
          f4("SubhalohalfMass")>> \o If(o.masstab, <<f4s("SubMassTab", <<6>>)>>), <<n.halos>>, FALSE)>>
Field(o, n) ==
    Rec(<<H("NTask", "i", 4, n.files), f8("BoxSize"), H("nn", "i", 4, n.nn), H("isw_slabs_per_task", "i", 4, n.slabs)>>)
    \o Rec(<<D("grid", "f", 4, <<n.slabs, n.nn, n.nn>>)>>)
\* the header record of a density field file is marked with length 8 whatever it holds
FieldFile(o, n) == LET r == Field(o, n) IN [i \in DOMAIN r |-> IF i \in {1, 6} THEN Marker(8) ELSE r[i]]

(* Rockstar: C structures                                                  *)
Rockstar(o, n) ==
    <<A("magic", "u", 8, <<>>), A("snap", "i", 8, <<>>), A("chunk", "i", 8, <<>>), A("scale", "f", 4, <<>>), A("om", "f", 4, <<>>),
      A("ol", "f", 4, <<>>), A("h0", "f", 4, <<>>), A("bounds", "f", 4, <<6>>), AV("num_halos", "i", 8, <<>>, <<n.halos>>),
      AV("num_particles", "i", 8, <<>>, <<n.ids>>), A("box_size", "f", 4, <<>>), A("particle_mass", "f", 4, <<>>),
      A("particle_type", "i", 8, <<>>), AV("format_revision", "i", 4, <<>>, <<n.rev>>), A("rockstar_version", "S", 12, <<>>),
      A("unused", "S", 144, <<>>),
      Struct("Halo",
        <<i8("id"), f4s("pos", <<6>>), f4s("corevel", <<3>>), f4s("bulkvel", <<3>>), f4("m"), f4("r"), f4("child_r"), f4("vmax_r"),
          f4("mgrav"), f4("vmax"), f4("rvmax"), f4("rs"), f4("klypin_rs"), f4("vrms"), f4s("J", <<3>>), f4("energy"), f4("spin"),
          f4s("alt_m", <<4>>), f4("Xoff"), f4("Voff"), f4("b_to_a"), f4("c_to_a"), f4s("A", <<3>>), f4("b_to_a2"), f4("c_to_a2"),
          f4s("A2", <<3>>), f4("bullock_spin"), f4("kin_to_pot"), f4("m_pe_b"), f4("m_pe_d")>>
        \o If(n.rev >= 2, <<f4("halfmass_radius")>>)
        \o <<i8("num_p"), i8("num_child_particles"), i8("p_start"), i8("desc"), i8("flags"), i8("n_core"),
          f4("min_pos_err"), f4("min_vel_err"), f4("min_bulkvel_err")>>
        \o If(o.hydro, <<i4("type"), f4("sm"), f4("gas"), f4("bh"), f4("peak_density"), f4("av_density")>>), <<n.halos>>, TRUE),
      D("IDs", "i", 8, <<n.ids>>)>>

(* VELOCIraptor                                                            *)
Digits3(i) == ToString(i \div 100) \o ToString((i \div 10) % 10) \o ToString(i % 10)
Velociraptor(o, n) ==
    <<A("ThisTask", "i", 4, <<>>), A("NProcs", "i", 4, <<>>), AV("ng", "u", 8, <<>>, <<n.g>>), A("ngtot", "u", 8, <<>>),
      AV("hsize", "i", 8, <<>>, <<n.head>>)>>
    \o [i \in 1..n.head |-> A("entry" \o Digits3(i - 1), "S", 40, <<>>)]
    \o <<Struct("Halo",
        <<u8("haloid"), u8("ibound"), u8("hostid"), u8("numsubs"), u8("num"), u4("stype")>>
        \o If(o.keepfof, <<u8("directhostid"), u8("hostfofid")>>)
        \o <<f8("gMvir"), f8s("gcm", <<3>>), f8s("gpos", <<3>>), f8s("gcmvel", <<3>>), f8s("gvel", <<3>>), f8("gmass"), f8("gMFOF"),
          f8("gM200m"), f8("gM200c"), f8("gMvir_again"), f8("Efrac"), f8("gRvir"), f8("gsize"), f8("gR200m"), f8("gR200c"),
          f8("gRvir_again"), f8("gRhalfmass"), f8("gRmaxvel"), f8("gmaxvel"), f8("gsigma_v"), f8s("gveldisp", <<3, 3>>),
          f8("glambda_B"), f8s("gJ", <<3>>), f8("gq"), f8("gs"), f8s("geigvec", <<3, 3>>), f8("cNFW"), f8("Krot"), f8("T"),
          f8("Pot"), f8("RV_sigma_v"), f8s("RV_veldisp", <<3, 3>>), f8("RV_lambda_B"), f8s("RV_J", <<3>>), f8("RV_q"), f8("RV_s"),
          f8s("RV_eigvec", <<3, 3>>)>>, <<n.g>>, FALSE)>>

Layout0(fmt, o, n) ==
    CASE fmt = "lg2.GroupTab" -> LG2GroupTab(o, n)
      [] fmt = "lg2.GroupIDs" -> LG2GroupIDs(o, n)
      [] fmt = "lg2.SubTab" -> LG2SubTab(o, n)
      [] fmt = "lg2.SubIDs" -> LG2SubIDs(o, n)
      [] fmt = "lg2.Snapshot" -> LG2Snapshot(o, n)
      [] fmt = "lg3.SubTab" -> LG3SubTab(o, n)
      [] fmt = "lg3.SubIDs" -> LG3SubIDs(o, n)
      [] fmt \in {"pg3.GroupIDs", "pg3.SubIDs"} -> PG3IDs(o, n)
      [] fmt = "pg3.GroupTab" -> PG3GroupTab(o, n)
      [] fmt = "pg3.SubTab" -> PG3SubTab(o, n)
      [] fmt = "g4.SubTab" -> G4SubTab(o, n)
      [] fmt = "gadget" -> Gadget(o, n)
      [] fmt = "mpa.SubDesc" -> SubDesc(o, n)
      [] fmt = "mpa.TreeAux" -> TreeAux(o, n)
      [] fmt = "mpa.Tree" -> Tree(o, n)
      [] fmt = "mxxl.SubDesc" -> MxxlSubDesc(o, n)
      [] fmt = "mxxl.Field" -> FieldFile(o, n)
      [] fmt = "rockstar" -> Rockstar(o, n)
      [] fmt = "velociraptor" -> Velociraptor(o, n)
\* with the values the generator wants
Layout(c) ==
    LET L == Layout0(c.fmt, c.opt, c.n)
    IN [i \in DOMAIN L |-> IF L[i].n \in DOMAIN c.vals THEN [L[i] EXCEPT !.v = c.vals[L[i].n]] ELSE L[i]]

\* sizes a sanity check must compare with the header; formats made of records
SizeChecked == {"lg3.SubTab", "lg3.SubIDs", "pg3.GroupIDs", "pg3.GroupTab", "pg3.SubTab", "pg3.SubIDs"}
RecordFormats == {"lg2.Snapshot", "g4.SubTab", "gadget", "mxxl.Field"}

---------------------------------------------------------------------------
(* Bytes                                                                   *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* little endian bytes of a non negative integer below 2^31
LE(v, w) == [i \in 1..w |-> IF i <= 4 THEN (v \div (256 ^ (i - 1))) % 256 ELSE 0]
RECURSIVE Log2(_)
Log2(v) == IF v < 2 THEN 0 ELSE 1 + Log2(v \div 2)
\* ... and of a small integer as a floating point number
FloatLE(v, w) ==
    IF v = 0 THEN Rep(0, w)
    ELSE LET e == Log2(v) IN
         IF w = 4 THEN LE((e + 127) * (2 ^ 23) + (v - 2 ^ e) * (2 ^ (23 - e)), 4)
         ELSE Rep(0, 4) \o LE((e + 1023) * (2 ^ 20) + (v - 2 ^ e) * (2 ^ (20 - e)), 4)
Enc(k, w, v, order) ==
    LET b == IF k = "f" THEN FloatLE(v, w) ELSE LE(v, w) IN IF order = ">" THEN Rev(b) ELSE b
Swapped(k, w) == k # "S" /\ k # "V" /\ w > 1

\* segments of a file: bytes, or a number of bytes which are free
Segments(c) ==
    LET L == Layout(c)
    IN [i \in DOMAIN L |->
        IF L[i].v = <<>> THEN [free |-> Size(L[i]), k |-> L[i].k, w |-> L[i].w, b |-> <<>>]
        ELSE [free |-> 0, k |-> L[i].k, w |-> L[i].w,
              b |-> Flat([j \in DOMAIN L[i].v |-> Enc(L[i].k, L[i].w, L[i].v[j], c.order)])]]
Offsets(L) == LET RECURSIVE Go(_, _)
                  Go(i, o) == IF i > Len(L) THEN <<>> ELSE <<o>> \o Go(i + 1, o + Size(L[i]))
              IN Go(1, 0)

\* element at offset o of the file, as its bytes in little endian order
ElementAt(bytes, order, k, w, o) ==
    LET b == SubSeq(bytes, o + 1, o + w) IN IF order = ">" /\ Swapped(k, w) THEN Rev(b) ELSE b
\* numpy drops trailing zero bytes of text
Shown(name, a, k, w, d, els) == [n |-> name, a |-> a, t |-> k \o ToString(w), d |-> d, e |-> els]
Values(c, bytes) ==
    LET L == Layout(c)
        off == Offsets(L)
        One(i) ==
            LET it == L[i] IN
            IF it.n = "" THEN <<>>
            ELSE IF it.k # "V" THEN
                 <<Shown(it.n, it.a, it.k, it.w, it.d,
                         [j \in 1..Prod(it.d) |-> ElementAt(bytes, c.order, it.k, it.w, off[i] + (j - 1) * it.w)])>>
            ELSE [m \in DOMAIN it.f |->
                    LET g == it.f[m]  per == Prod(g.d) IN
                    Shown(it.n \o "." \o g.n, FALSE, g.k, g.w, it.d \o g.d,
                          [j \in 1..(Prod(it.d) * per) |->
                             ElementAt(bytes, "<", g.k, g.w,
                                       off[i] + ((j - 1) \div per) * it.w + g.o + ((j - 1) % per) * g.w)])]
    IN Flat([i \in DOMAIN L |-> One(i)])
\* the value of one block
Value(c, bytes, name) ==
    LET L == Layout(c)
        off == Offsets(L)
        i == CHOOSE j \in DOMAIN L : L[j].n = name
        it == L[i]
    IN [d |-> it.d, t |-> it.k \o ToString(it.w),
        e |-> [j \in 1..Prod(it.d) |-> ElementAt(bytes, c.order, it.k, it.w, off[i] + (j - 1) * it.w)]]
HasBlock(c, name) == \E it \in {Layout(c)[i] : i \in DOMAIN Layout(c)} : it.n = name
=============================================================================
