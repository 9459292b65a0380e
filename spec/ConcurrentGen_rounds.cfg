SPECIFICATION Spec
CONSTANTS
  Devices = {1, 2, 3}
  Values = {1}
  Leak = "none"
  Rest = {"bundle", "encrypt", "decrypt", "first", "gencrypt", "gdecrypt", "keys", "fingerprint"}
CHECK_DEADLOCK FALSE
