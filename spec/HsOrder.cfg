SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT PrintTest
INVARIANTS TypeOK ExactFlight Agreement AlertDiscipline Protected
CONSTANTS
  Msgs = {"sh_ok", "cert_one", "ske_ok", "shd_ok", "fin_ok", "hello_req", "client_hello", "cert_req", "cke", "unk_4", "unk_15", "unk_22", "sh_noext", "cert_none"}
  Split = TRUE
  MaxWhole = 2
  Others = {"ccs_ok", "ccs_0", "ccs_empty", "al_close_w", "al_fatal", "al_warn", "app", "app_empty", "hs_empty", "unk_type", "eof"}
  Prots = {"good", "plain"}
  Tampers = {"same"}
  CTampers = {"none"}
  WFaults = {0}
  KeepVariants = FALSE
