t("C18","path-sensitive dataflow over the resolved syntax tree (frame conditions of every public operation) and an effect analysis of globals")
t("C19","effect analysis over the resolved syntax tree (who writes a global or static, who calls a routine with hidden state)")
t("C20","typestate of acquired objects (path-sensitive dataflow over the resolved syntax tree, per case of entry ownership)")
t("C21","ownership dataflow (special member functions of owning classes) and compile-fail witnesses")
t("C22 C23","path-sensitive dataflow with interval and linear bounds over the resolved syntax tree")
t("C24","path-sensitive dataflow with linear bounds over the resolved syntax tree")
t("C26","exception-effect analysis (path-sensitive dataflow) over every public function of the library")
t("C29 C30 C31 C42 C39","transducer extraction: the loop body's paths as transitions, compared with the defining machine (path-sensitive dataflow over the resolved syntax tree)")
t("C32","path-sensitive dataflow over the resolved syntax tree with exhaustive evaluation of octet tables")
t("C37","path-sensitive dataflow over the resolved syntax tree (state after Reset against state after construction)")
t("C38","ranking of loops: linear entailment over the path transitions of every loop (path-sensitive dataflow), and of recursive calls")
t("C40","path-sensitive dataflow over the resolved syntax tree (the steps taken and the text printed on every path of the tool, library by contract), option tables read from the tree")
t("C49","frame analysis: every getter evaluated before and after every setter (path-sensitive dataflow over the resolved syntax tree)")
t("C50","call-sequence analysis of the BIO chain and transducer extraction of the copy loop (path-sensitive dataflow over the resolved syntax tree)")
