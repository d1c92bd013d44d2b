------------------------------- MODULE Tableaus -------------------------------
(***************************************************************************)
(* Coefficient tables of the explicit Runge-Kutta methods, as published:   *)
(*   a  rows of the lower triangle for the stages 2..s                     *)
(*   c  nodes of all s stages (the first is 0)                             *)
(*   b  the weight vectors: one for a plain method; <<high, low>> for an   *)
(*      embedded pair                                                      *)
(*   order  the order of the method obtained with each weight vector       *)
(* The claims about the orders are checked against the order conditions    *)
(* of all rooted trees in MCTableaus.                                      *)
(***************************************************************************)
Euler ==
    [a |-> <<>>,
     c |-> <<0>>,
     b |-> <<<<1>>>>,
     order |-> <<1>>]

RK4 ==
    [a |-> <<<<"1/2">>,
            <<0, "1/2">>,
            <<0, 0, 1>>>>,
     c |-> <<0, "1/2", "1/2", 1>>,
     b |-> <<<<"1/6", "1/3", "1/3", "1/6">>>>,
     order |-> <<4>>]

DOPRI45 ==
    [a |-> <<<<"1/5">>,
            <<"3/40", "9/40">>,
            <<"44/45", "-56/15", "32/9">>,
            <<"19372/6561", "-25360/2187", "64448/6561", "-212/729">>,
            <<"9017/3168", "-355/33", "46732/5247", "49/176", "-5103/18656">>,
            <<"35/384", 0, "500/1113", "125/192", "-2187/6784", "11/84">>>>,
     c |-> <<0, "1/5", "3/10", "4/5", "8/9", 1, 1>>,
     b |-> <<<<"35/384", 0, "500/1113", "125/192", "-2187/6784", "11/84", 0>>,
            <<"5179/57600", 0, "7571/16695", "393/640", "-92097/339200", "187/2100", "1/40">>>>,
     order |-> <<5, 4>>]

DOPRI56 ==
    [a |-> <<<<"1/10">>,
            <<"-2/81", "20/81">>,
            <<"615/1372", "-270/343", "1053/1372">>,
            <<"3243/5500", "-54/55", "50949/71500", "4998/17875">>,
            <<"-26492/37125", "72/55", "2808/23375", "-24206/37125", "338/459">>,
            <<"5561/2376", "-35/11", "-24117/31603", "899983/200772", "-5225/1836", "3925/4056">>,
            <<"465467/266112", "-2945/1232", "-5610201/14158144", "10513573/3212352", "-424325/205632", "376225/454272", 0>>>>,
     c |-> <<0, "1/10", "2/9", "3/7", "3/5", "4/5", 1, 1>>,
     b |-> <<<<"61/864", 0, "98415/321776", "16807/146016", "1375/7344", "1375/5408", "-37/1120", "1/10">>,
            <<"821/10800", 0, "19683/71825", "175273/912600", "395/3672", "785/2704", "3/50", 0>>>>,
     order |-> <<6, 5>>]

DOPRI78 ==
    [a |-> <<<<"1/18">>,
            <<"1/48", "1/16">>,
            <<"1/32", 0, "3/32">>,
            <<"5/16", 0, "-75/64", "75/64">>,
            <<"3/80", 0, 0, "3/16", "3/20">>,
            <<"29443841/614563906", 0, 0, "77736538/692538347", "-28693883/1125000000", "23124283/1800000000">>,
            <<"16016141/946692911", 0, 0, "61564180/158732637", "22789713/633445777", "545815736/2771057229", "-180193667/1043307555">>,
            <<"39632708/573591083", 0, 0, "-433636366/683701615", "-421739975/2616292301", "100302831/723423059", "790204164/839813087", "800635310/3783071287">>,
            <<"246121993/1340847787", 0, 0, "-37695042795/15268766246", "-309121744/1061227803", "-12992083/490766935", "6005943493/2108947869", "393006217/1396673457", "123872331/1001029789">>,
            <<"-1028468189/846180014", 0, 0, "8478235783/508512852", "1311729495/1432422823", "-10304129995/1701304382", "-48777925059/3047939560", "15336726248/1032824649", "-45442868181/3398467696", "3065993473/597172653">>,
            <<"185892177/718116043", 0, 0, "-3185094517/667107341", "-477755414/1098053517", "-703635378/230739211", "5731566787/1027545527", "5232866602/850066563", "-4093664535/808688257", "3962137247/1805957418", "65686358/487910083">>,
            <<"403863854/491063109", 0, 0, "-5068492393/434740067", "-411421997/543043805", "652783627/914296604", "11173962825/925320556", "-13158990841/6184727034", "3936647629/1978049680", "-160528059/685178525", "248638103/1413531060", 0>>>>,
     c |-> <<0, "1/18", "1/12", "1/8", "5/16", "3/8", "59/400", "93/200", "5490023248/9719169821", "13/20", "1201146811/1299019798", 1, 1>>,
     b |-> <<<<"14005451/335480064", 0, 0, 0, 0, "-59238493/1068277825", "181606767/758867731", "561292985/797845732", "-1041891430/1371343529", "760417239/1151165299", "118820643/751138087", "-528747749/2220607170", "1/4">>,
            <<"13451932/455176623", 0, 0, 0, 0, "-808719846/976000145", "1757004468/5645159321", "656045339/265891186", "-3867574721/1518517206", "465885868/322736535", "53011238/667516719", "2/45", 0>>>>,
     order |-> <<8, 7>>]

Tableau(name) ==
    CASE name = "euler" -> Euler
      [] name = "rk4" -> RK4
      [] name = "dopri45" -> DOPRI45
      [] name = "dopri56" -> DOPRI56
      [] name = "dopri78" -> DOPRI78
=============================================================================
