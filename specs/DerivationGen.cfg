CONSTANTS MaxNodes = 4
 Faulty = TRUE
SPECIFICATION GenSpec
