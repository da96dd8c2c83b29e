------------------------------- MODULE Launch --------------------------------
(* The command-line programs: what their arguments make them do.              *)
(*                                                                            *)
(* Words are taken from left to right.  Asking for help ends everything; of   *)
(* several files the last one counts.  What happens to words that mean        *)
(* nothing is left open: they are passed over or refused.  The solver runs a  *)
(* case to its end and leaves its results; the post-processor needs results   *)
(* of the case its file names and adds to those only.  What it leaves is what *)
(* its last run was asked for: nothing of an earlier run stays beside it.     *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Devices,     \* names of devices
          CaseOf,      \* for files that are complete: the case they stand for
          OfSolver     \* the files among them that are cases, the others are for the post-processor
VARIABLES prog,        \* the program being started: "solver", "post" or "none"
          words,       \* its words so far
          wants,       \* what the next word is: "any", "file", "device"
          file,        \* the file to use
          how,         \* "reading", "help", "refused"
          done,        \* cases with complete results
          shown,       \* for cases that were post-processed: the file last used
          last         \* outcome of the last program: "ran", "help", "refused"
vars == <<prog, words, wants, file, how, done, shown, last>>

Nothing == "(none)"

Start(p) == /\ prog = "none" /\ prog' = p /\ words' = <<>> /\ wants' = "any"
            /\ file' = Nothing /\ how' = "reading" /\ UNCHANGED <<done, shown, last>>

Take(w) == /\ prog # "none" /\ words' = Append(words, w) /\ UNCHANGED <<prog, done, shown, last>>
Keep == UNCHANGED <<wants, file, how>>
Means(w) == w \in {"-i", "-h"} \/ (prog = "solver" /\ w \in {"-d", "--device"})

Ended(w) == Take(w) /\ how # "reading" /\ Keep
AskFile(w) == Take(w) /\ how = "reading" /\ wants = "any" /\ w = "-i" /\ wants' = "file" /\ UNCHANGED <<file, how>>
AskHelp(w) == Take(w) /\ how = "reading" /\ wants = "any" /\ w = "-h" /\ how' = "help" /\ UNCHANGED <<wants, file>>
AskDevice(w) == /\ Take(w) /\ how = "reading" /\ wants = "any" /\ prog = "solver" /\ w \in {"-d", "--device"}
                /\ wants' = "device" /\ UNCHANGED <<file, how>>
NameFile(w) == Take(w) /\ how = "reading" /\ wants = "file" /\ file' = w /\ wants' = "any" /\ UNCHANGED how
NameDevice(w) == /\ Take(w) /\ how = "reading" /\ wants = "device"
                 /\ wants' = "any" /\ how' = (IF w \in Devices THEN how ELSE "refused") /\ UNCHANGED file
PassOver(w) == Take(w) /\ how = "reading" /\ wants = "any" /\ ~Means(w) /\ Keep
Refuse(w) == Take(w) /\ how = "reading" /\ wants = "any" /\ ~Means(w) /\ how' = "refused" /\ UNCHANGED <<wants, file>>
Word(w) == Ended(w) \/ AskFile(w) \/ AskHelp(w) \/ AskDevice(w) \/ NameFile(w) \/ NameDevice(w) \/ PassOver(w) \/ Refuse(w)

Able == /\ file \in DOMAIN CaseOf
        /\ IF prog = "solver" THEN file \in OfSolver ELSE file \notin OfSolver /\ CaseOf[file] \in done

Over(o) == prog' = "none" /\ last' = o /\ UNCHANGED <<words, wants, file, how>>
Help == prog # "none" /\ how = "help" /\ Over("help") /\ UNCHANGED <<done, shown>>
Run == /\ prog # "none" /\ how = "reading" /\ Able /\ Over("ran") /\ done' = done \cup {CaseOf[file]}
       /\ shown' = (IF prog = "solver" THEN shown ELSE (CaseOf[file] :> file) @@ shown)
Fail == /\ prog # "none" /\ how # "help"
        /\ IF how = "refused" THEN TRUE ELSE ~Able \/ wants # "any"
        /\ Over("refused") /\ UNCHANGED <<done, shown>>

(* What the words say, read another way.                                      *)
Wants(i) == \* word i is taken by the one before
            i > 1 /\ \E j \in 1..i - 1 :
               /\ (i - j) % 2 = 1
               /\ \A k \in j..i - 1 : words[k] = "-i" \/ (prog = "solver" /\ words[k] \in {"-d", "--device"})
               /\ IF j = 1 THEN TRUE ELSE ~(words[j - 1] = "-i" \/ (prog = "solver" /\ words[j - 1] \in {"-d", "--device"}))
LastFile == prog # "none" /\ how = "reading" /\ wants = "any" =>
              LET at == {i \in 2..Len(words) : words[i - 1] = "-i" /\ Wants(i)}
              IN IF at = {} THEN file = Nothing
                 ELSE file = words[CHOOSE i \in at : \A j \in at : j <= i]
HelpAsked == how = "help" => \E i \in 1..Len(words) : words[i] = "-h"
ShownDone == \A k \in DOMAIN shown : k \in done /\ shown[k] \notin OfSolver /\ CaseOf[shown[k]] = k
RunNamed == last = "ran" /\ prog = "none" => \E i \in 1..Len(words) : words[i] = file /\ file \in DOMAIN CaseOf
=============================================================================
