------------------------------ MODULE Builders ------------------------------
(* The node builders: the methods of BayesianNet and the old-style node      *)
(* classes.  A behaviour fills in the arguments of one call one by one;      *)
(* an argument that is not given keeps its documented default.  The node     *)
(* that the call makes has the named distribution with these arguments.      *)
EXTENDS Laws, Json, CSV, IOUtils
CONSTANTS Lws, Apis, MaxGiven
VARIABLES law, api, alias, given, order, st
vars == <<law, api, alias, given, order, st>>
Class(l) == CASE l \in {"Normal.std", "Normal.logstd"} -> "Normal"
              [] l \in {"FoldNormal.std", "FoldNormal.logstd"} -> "FoldNormal"
              [] l \in {"Multinomial", "Multinomial.free", "Multinomial.raw"} -> "Multinomial"
              [] l \in {"UnnormalizedMultinomial", "UnnormalizedMultinomial.raw"} -> "UnnormalizedMultinomial"
              [] OTHER -> l
Method(l) ==
  CASE Class(l) = "Normal" -> <<"normal">> [] Class(l) = "FoldNormal" -> <<"fold_normal">>
    [] l = "Bernoulli" -> <<"bernoulli">> [] l = "Categorical" -> <<"categorical", "discrete">>
    [] l = "Uniform" -> <<"uniform">> [] l = "Gamma" -> <<"gamma">> [] l = "Beta" -> <<"beta">>
    [] l = "Poisson" -> <<"poisson">> [] l = "Binomial" -> <<"binomial">>
    [] l = "InverseGamma" -> <<"inverse_gamma">> [] l = "Laplace" -> <<"laplace">>
    [] l = "BinConcrete" -> <<"bin_concrete", "bin_gumbel_softmax">>
    [] l = "MultivariateNormalCholesky" -> <<"multivariate_normal_cholesky">>
    [] l = "MatrixVariateNormalCholesky" -> <<"matrix_variate_normal_cholesky">>
    [] Class(l) = "Multinomial" -> <<"multinomial">>
    [] Class(l) = "UnnormalizedMultinomial" -> <<"unnormalized_multinomial", "bag_of_categoricals">>
    [] l = "OnehotCategorical" -> <<"onehot_categorical", "onehot_discrete">>
    [] l = "Dirichlet" -> <<"dirichlet">> [] l = "ExpConcrete" -> <<"exp_concrete", "exp_gumbel_softmax">>
    [] l = "Concrete" -> <<"concrete", "gumbel_softmax">>
OldAlias(l) == CASE l = "Categorical" -> <<"Discrete">> [] l = "OnehotCategorical" -> <<"OnehotDiscrete">>
                 [] l = "BinConcrete" -> <<"BinGumbelSoftmax">> [] l = "ExpConcrete" -> <<"ExpGumbelSoftmax">>
                 [] l = "Concrete" -> <<"GumbelSoftmax">>
                 [] Class(l) = "UnnormalizedMultinomial" -> <<"BagofCategoricals">> [] OTHER -> <<>>
(* api: "method" of a net, "old" node class in a `with net:` block, "alone": old class outside any net,
   "plain": the distribution class itself, put into a net by stochastic() *)
Names(l, a) == IF a = "method" THEN Method(l) ELSE <<Class(l)>> \o OldAlias(l)
Discrete(l) == ~Continuous(l)
Checks(l) == Continuous(l) \/ l \in {"Poisson", "Binomial"}
Raw(l) == l \in {"Multinomial.raw", "UnnormalizedMultinomial.raw"}
Draws(l) == CanSample(l) \/ l = "Multinomial.raw"
(* the optional arguments and the values they may be given; parameters with a default are optional *)
Opts(l) ==
  [group_ndims |-> {"0", "1", "2", "tensor1"},
   n_samples |-> IF Draws(l) THEN {"1", "3", "tensor2"} ELSE {},
   dtype |-> IF Discrete(l) THEN {"float32", "int64", "int32", "float64"} \cup (IF l = "Categorical" THEN {} ELSE {"int16"}) ELSE {},
   is_reparameterized |-> IF HasRep(l) THEN {"yes", "no"} ELSE {},
   use_path_derivative |-> IF HasPath(l) THEN {"yes", "no"} ELSE {},
   check_numerics |-> IF Checks(l) THEN {"yes", "no"} ELSE {},
   mean |-> IF Class(l) \in {"Normal", "FoldNormal"} THEN {"given"} ELSE {},
   minval |-> IF l = "Uniform" THEN {"given"} ELSE {},
   maxval |-> IF l = "Uniform" THEN {"given"} ELSE {},
   normalize_logits |-> IF Raw(l) THEN {} ELSE IF Class(l) \in {"Multinomial", "UnnormalizedMultinomial"} THEN {"yes"} ELSE {},
   observed |-> {"net"}]
OptNames == {"group_ndims", "n_samples", "dtype", "is_reparameterized", "use_path_derivative", "check_numerics",
             "mean", "minval", "maxval", "normalize_logits", "observed"}
Default(o) == CASE o \in {"use_path_derivative", "check_numerics"} -> "no"
                [] o \in {"is_reparameterized", "normalize_logits"} -> "yes"
                [] o = "group_ndims" -> "0" [] o = "dtype" -> "int32" [] OTHER -> "none"
Init == /\ law \in Lws /\ api \in Apis
        /\ alias \in {Names(law, api)[i] : i \in 1..Len(Names(law, api))}
        /\ given = [o \in OptNames |-> "-"] /\ order = <<>> /\ st = "args"
Give(o) == /\ st = "args" /\ given[o] = "-" /\ Len(order) < MaxGiven
           /\ ~ (o = "observed" /\ api = "alone")
           /\ ~ (o = "n_samples" /\ given["observed"] # "-") /\ ~ (o = "observed" /\ given["n_samples"] # "-")
           /\ \E v \in Opts(law)[o] : given' = [given EXCEPT ![o] = v]
           /\ order' = Append(order, o) /\ UNCHANGED <<law, api, alias, st>>
Call == /\ st = "args" /\ st' = "made"
        (* Uniform(0, 1) has no batch axis that could be grouped *)
        /\ ~ (law = "Uniform" /\ given["minval"] = "-" /\ given["maxval"] = "-" /\ given["group_ndims"] \notin {"-", "0"})
        /\ UNCHANGED <<law, api, alias, given, order>>
Next == Call \/ \E o \in OptNames : Give(o)
Spec == Init /\ [][Next]_vars
(* ---- the node ---- *)
Attr(g, o) == IF g[o] = "-" THEN Default(o) ELSE g[o]
Field == [group_ndims |-> "group", n_samples |-> "n", dtype |-> "dtype", is_reparameterized |-> "rep",
          use_path_derivative |-> "path", check_numerics |-> "check", normalize_logits |-> "normalize",
          observed |-> "observed", mean |-> "", minval |-> "", maxval |-> ""]
NodeOf(g) ==
  [class |-> Class(law), continuous |-> Continuous(law), group |-> Attr(g, "group_ndims"),
   rep |-> IF HasRep(law) THEN Attr(g, "is_reparameterized") ELSE "no", path |-> Attr(g, "use_path_derivative"),
   check |-> Attr(g, "check_numerics"), dtype |-> IF Discrete(law) THEN Attr(g, "dtype") ELSE "param",
   n |-> Attr(g, "n_samples"), observed |-> g["observed"] # "-",
   normalize |-> IF Raw(law) THEN "no" ELSE Attr(g, "normalize_logits")]
Node == NodeOf(given)
Without(o) == [given EXCEPT ![o] = "-"]
(* writing a default out changes nothing; an argument changes nothing but what it stands for *)
AsWritten == st = "made" => \A o \in OptNames : given[o] = Default(o) => NodeOf(Without(o)) = Node
OnlyItself == st = "made" => \A o \in OptNames : \A f \in DOMAIN Node : Node[f] # NodeOf(Without(o))[f] => f = Field[o]
Covered == st = "made" => \A o \in OptNames : given[o] = "-" \/ given[o] \in Opts(law)[o]
Defaulted == [mean |-> Class(law) \in {"Normal", "FoldNormal"} /\ given["mean"] = "-",
              minval |-> law = "Uniform" /\ given["minval"] = "-", maxval |-> law = "Uniform" /\ given["maxval"] = "-"]
Case == [law |-> law, api |-> api, name |-> alias, given |-> given, node |-> Node, params |-> Params(law),
         defaulted |-> Defaulted, vrank |-> ValueRank(law), draws |-> Draws(law), checks |-> Checks(law),
         aliases |-> Names(law, api)]
View == <<law, api, alias, given, st>>
Emit == st = "made" => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VERIF_OUT)
=============================================================================
