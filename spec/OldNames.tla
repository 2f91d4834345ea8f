----------------------------- MODULE OldNames ------------------------------
(***************************************************************************)
(* Functions kept under an old or a short name.  Wrapper[f]: the function  *)
(* that f stands for, the parameters of f in order, how many of them are   *)
(* required, and the arguments that f fixes.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Psi == <<"uxds", "lat", "meridional_wind_varname", "surface_air_pressure_varname", "plev_coordname", "hyam_coordname", "hybm_coordname">>
Low == "cutoff_frequency_low"
High == "cutoff_frequency_high"
Wrapper ==
    [dpres_plev |-> [is |-> "delta_pressure", params |-> <<"pressure_lev", "surface_pressure", "pressure_top">>, need |-> 2, fixed |-> {}],
     zonal_mpsi |-> [is |-> "zonal_meridional_psi", params |-> Psi, need |-> 1, fixed |-> {}],
     fourier_low_pass |-> [is |-> "fourier_filter", params |-> <<"signal", "frequency", Low, "time_axis">>, need |-> 3, fixed |-> {"low_pass"}],
     fourier_high_pass |-> [is |-> "fourier_filter", params |-> <<"signal", "frequency", High, "time_axis">>, need |-> 3, fixed |-> {"high_pass"}],
     fourier_band_pass |-> [is |-> "fourier_filter", params |-> <<"signal", "frequency", Low, High, "time_axis">>, need |-> 4, fixed |-> {"band_pass"}],
     fourier_band_block |-> [is |-> "fourier_filter", params |-> <<"signal", "frequency", Low, High, "time_axis">>, need |-> 4, fixed |-> {"band_block"}]]
(* Names that now are in another package.                                    *)
Moved == {"grid_to_triple", "linint1", "linint2", "linint2pts", "moc_globe_atl", "rcm2points", "rcm2rgrid", "rgrid2rcm", "triple_to_grid"}
(* A call: pos positional arguments, the set kw of keywords after them.      *)
Callable(w, pos, kw) ==
    /\ pos \in 0..Len(w.params)
    /\ kw \subseteq {w.params[i] : i \in (pos + 1)..Len(w.params)}
    /\ \A i \in (pos + 1)..w.need : w.params[i] \in kw
(* Every call gives each parameter at most one argument.                     *)
Bound(w, pos, kw) == {w.params[i] : i \in 1..pos} \cup kw
Calls(f) == LET w == Wrapper[f] IN
    {c \in [pos : 0..Len(w.params), kw : SUBSET {w.params[i] : i \in 1..Len(w.params)}] : Callable(w, c.pos, c.kw)}
=============================================================================
