"""The source language as users write it: spellings and the statements they make up."""
FOLLOW_WORD = b" \t\n\r;,()#+-*/<>=&|^~\"'$%"
FOLLOW_NUM = b" \t\n\r;,()#+-*/<>=&|^~:"
# word -> token name ('c' stands for the character itself)
KEYWORDS = {
 ".byte": "BYTE", ".db": "BYTE", ".word": "WORD", ".dw": "WORD", ".dcw": "WORD", ".ds": "DS", ".equ": "EQU", "not": "NOT",
 ".repeat": "REPEAT", ".until": "UNTIL", ".end": "END", ".print": "PRINT", ".printall": "PRINTALL", ".for": "FOR", ".next": "NEXT",
 ".step": "STEP", ".to": "TO", ".downto": "DOWNTO", ".str": "STR", ".text": "STR", ".string": "STR", ".org": "ORG",
 ".section": "SECTION", ".sect": "SECTION", ".endsection": "ENDSECTION", ".ends": "ENDSECTION", ".inc": "INC", ".load": "LOAD",
 ".fill": "FILL", ".wend": "WEND", ".do": "DO", ".macro": "MACRO", ".mac": "MACRO", ".endmacro": "ENDMACRO", ".endm": "ENDMACRO",
 ".regx": "REGX", ".regy": "REGY", ".var": "VAR", ".print on": "PRINTON", ".print off": "PRINTOFF", "x": "X", "y": "Y",
 ".if": "IF"}
# operators and punctuation
SIGNS = {">=": "GE", "<=": "LE", "==": "EQ", "!=": "NE", "<>": "NE", "<<": "SHIFT_LEFT", ">>": "SHIFT_RIGHT", "||": "OR", "|": "BIT_OR",
 "&&": "AND", "&": "BIT_AND", "?": "PRINT", "??": "PRINTALL", "~": "~", "^": "^", "<": "<", ">": ">", "=": "=", "*": "*", "/": "/",
 "+": "+", "-": "-", "#": "#", ",": ",", "(": "(", ")": ")", "\n": "EOL", "\r": "EOL"}
TOKENS = sorted({t for t in list(KEYWORDS.values()) + list(SIGNS.values()) if len(t) > 1} |
                {"OPCODE", "INTEGER", "SYMBOL", "LABEL", "MACSYMBOL", "STRING_LITERAL", "PCASSIGN", "WHILE", "ENDDO", "ELSE", "ENDIF",
                 "STATEMENT", "EXPRLIST", "UMINUS", "LOBYTE", "HIBYTE"})
