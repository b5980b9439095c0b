c("C01","exhaustive exploration of backup/restore pairs on the real code against a reference model","model_checking",
  "Every combination of configuration, backed-up state, later state and target path in the stated alphabets, plus all single-entry perturbations and all pairs of perturbations of a nested tree, as root and unprivileged user, and 4600 of these histories again with an ordinary build on the real kernel, whose results are compared with those of the modelled operating system.")
c("C02",MC+"all backup histories up to a depth, every number and path restored","model_checking",
  "Exhaustive for all histories of depth 3 (thorough 4) over 15 states of a parent and a child under eight configurations.")
c("C03",MC+"all backup histories up to a depth against a reference model","model_checking",
  "Exhaustive for all histories of depth 4 (thorough 5) over 16 file system states under every policy combination of parent and child.")
c("C04",MC+"all histories in which configuration and files change, against a reference model","model_checking",
  "Exhaustive for all histories of depth 3 over 16 states x 23 configurations chosen anew at each step.")
c("C05","exhaustive kill-point enumeration (single and double) on the real code under a fault injector","fault_enumeration",
  "Every kill point (before/after every state-changing call, inside every write) of every scenario, and every second kill during the repetition.")
c("C06","exhaustive enumeration of durable states after power loss on the real code","fault_enumeration",
  "Every durable state permitted by the stated durability model at every point of every scenario, also in the rerun after every kill.")
c("C07","exhaustive fault injection (single, double, persistent faults) on the real code","fault_enumeration",
  "Every call of every scenario failing in every listed way, every second fault after it, every persistent failure, and every failed sync followed by every power loss.")
c("C08",MC+"all change histories of contents and metadata against a reference model","model_checking",
  "Exhaustive over the content alphabets and history depths in evidence.")
c("C09",MC+"all histories over colliding contents against a reference model of the store","model_checking",
  "Exhaustive over histories of colliding contents; two known findings. Contents up to several hashing blocks.")
c("C10","exhaustive enumeration of corruptions of repositories, real integrity check against an independent oracle","model_checking",
  "Every single corruption of every stored file (and pairs) of the listed repositories.")
c("C11",MC+"modelled histories written by an independent encoder, read and rewritten by the program, and all written files compared with the independent encoding","model_checking",
  "Exhaustive over modelled histories, forms of encoding, boundary values and following changes.")
c("C12","exhaustive enumeration of malformed metadata through the real program with fenced memory, against an independent decoder","model_checking",
  "Every prefix, byte substitution, field boundary value (pairs on the smallest repository) and odd entry of four repositories.")
c("C13","exhaustive enumeration of configuration files over a line and token alphabet, the real parser against a reference parser","model_checking",
  "Every sequence of lines and every single-byte variation of the listed configurations, and configurations of up to thousands of lines.")
c("C14","exhaustive enumeration of source trees and configurations, recorded selection against a reference selection","model_checking",
  "Every configuration of the alphabet on every tree of the alphabet.")
c("C23","exhaustive enumeration of pattern configurations and trees, warnings against a reference","model_checking",
  "Every configuration of the alphabet on every tree of the alphabet.")
c("C16","stateless exploration of process interleavings of the real program under a controlled scheduler, with preemption bound","model_checking",
  "Every interleaving with up to 2 (thorough 3) preemptions of two and three processes, with one of them killed at every operation, and with files changing between them.")
c("C17","exhaustive enumeration of changes interleaved at every operation of a backup of the real program","fault_enumeration",
  "Every one of 28 changes (and pairs) at every operation on the files.")
c("C15",MC+"all histories under all configurations and summarize patterns, report compared with a reference; every answer to every question","model_checking",
  "Exhaustive for histories of depth 3 (thorough 4) over 16 states x 115 configurations, and 35 answers on all listed scenarios.")
c("C18",MC+"every recorded state x present state x link layout x requested path, complete file system compared with a reference","model_checking",
  "Exhaustive over the stated recorded states, present states, 14 layouts of links and foreign files, numbers and paths; nested trees as root and unprivileged user.")
c("C19","exhaustive kill-point and fault enumeration of restores on the real code, each followed by the repeated restore","fault_enumeration",
  "Every kill point and failing call of every restore scene (as root and as unprivileged user with read-only and setuid entries), every second kill during the repetition.")
c("C20",MC+"after every history one more backup, which must be silent and write nothing","model_checking",
  "Exhaustive for histories of depth 3 (thorough 4) over 16 states x 23 configurations, boundary attributes, and foreign items in the repository.")
c("C21","exhaustive enumeration of commands, repository layouts, kill points and faults on the real code, complete file system compared","fault_enumeration",
  "Every command on every listed layout of links, every failing call and kill point of every scenario, and all histories of depth 3 with every command after them.")
c("C22",MC+"all histories of two repositories and every stop of the documented copy procedure","model_checking",
  "Exhaustive for histories of depth 4 (thorough 5), every copy point and every stop (also within a copied file).")
c("C24",MC+"all argument lists over an alphabet of spellings against an independent interpreter","model_checking",
  "Exhaustive over the alphabets: 17 repositories x 33 second arguments x 27 paths x 3 working directories x 5 repository conditions.")
c("C25","exhaustive enumeration of endings (refusals, faults and kills at every operation) of the real program, each followed by every command","fault_enumeration",
  "Every ending of 12 command/answer pairs on 9 conditions, every failing call and kill point.")
c("C26",MC+"directory sizes, depths, families of related names and hash collisions against a reference model","model_checking",
  "Exhaustive over the stated sizes, depths, name families, link layouts, skipped entries and changes.")
c("C27",MC+"restore requests, damaged repositories and failures to lock, each with the repository writable and on a read-only file system, and schedules of two readers","model_checking",
  "Every scene runs twice, with a writable and with a read-only repository, and must not differ; every error of opening and of locking the lock file for every command; two readers with up to two switches, at every operation.")
c("C28",MC+"scenes of every command, each with all choices of standard streams being terminals and several behaviours of the clock, judged on the screen of a modelled terminal","model_checking",
  "Exhaustive over the scenes, stream choices and clock patterns listed in the evidence; the terminal is a model of the ECMA-48 sequences in use (unknown ones are violations).")
c("C29",MC+"stories of backups, restores, gc and integrity, each replayed under every circumstance of a list and compared","model_checking",
  "Exhaustive for stories of two (thorough three) backups over 23 configurations and 16 states, with sound and damaged repositories, under each of 25 circumstances; combinations of circumstances are not enumerated.")
