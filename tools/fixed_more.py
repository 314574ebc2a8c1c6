MORE = {
    "put snippets into translations of more of Flake8's messages": ("C14", "translations of F407, F842, E114, E202, E203, E231, C901, E902, E999 lost their snippets"),
    "extract all kinds of snippets, including multi-line ones, for translations": ("C14", "snippets with line ends or formatted other than by %s and %r were lost in translations"),
    "put the name into translations of reworded messages on disallowed names": ("C14", "the name was missing in translations of the reworded disallowed-name message"),
    "put snippets into translations of pylint's own messages": ("C14", "translations of pylint's own messages lost their snippets"),
    "report arguments pylint refuses instead of failing": ("C06", "pylint arguments that pylint refuses ended in an exception"),
    "put snippets into translations of messages of checkers in sub-packages": ("C14", "translations of messages of checkers in sub-packages lost their snippets"),
    "tell the operator from the value in translations of augmented assignment": ("C14", "the augmented operator and the value were mixed up in translations"),
    "bracket compared expressions that bind less than the comparison": ("C20", "(not x) > 1 and (not x) > y was suggested as not x > max(1, y)"),
    "recognise only whole calls of abs, max and min in suggested comparisons": ("C20", "abs(x) - 3 < c and abs(x) - 3 > -c lost the outer abs; max(a, b) + 1 and max(xs) were taken apart"),
    "round divisions by a negative number down when converting them for Z3": ("C20", "x // -3 was rounded up in the solver, giving false redundancies"),
    "do not take chained comparisons with negated operators for negations": ("C21", "1 < x < 5 and 1 >= x >= 5 were taken for negations: reachable branches reported unreachable"),
    "compare operators and values of modulo two tests when looking for negations": ("C21", "x % 2 == 0 and x % 2 != 1, or x % 2 == 2, were taken for negations"),
    "bracket if expressions, lambdas and assignment expressions in refactored conditions": ("C22", "(a if b else c) and d, (lambda: a) and similar lost their brackets in suggested conditions"),
    "do not analyse blocks that assign non-integers to variables used as integers": ("C23", "if z % 2 == 1: z /= 2; if z % 2 == 0: ... counted as exclusive with anything before"),
    "decide whether ifs can be elifs without what later ifs assert or return": ("C23", "if y: y = 0; if 1: assert y == 6 - what the second if asserts or returns was assumed when it was compared with the first"),
    "look for unreachable else when only that check is enabled": ("C13", "unreachable-else alone reported nothing: it was not among the checks visit_if is needed for"),
    "print problems with characters that the output encoding lacks": ("C11", "a problem whose text or path the encoding of standard output lacks ended in UnicodeEncodeError and status 2"),
    "suggest append only for single elements, and bracket what it is called on": ("C26", "lst.extend([*a]) became append(*a); (a or b).extend([x]) became a or b.append(x)"),
    "report a repeated operation only if all the operands are the same": ("C26", "x + x + y was reported as a repeated operation"),
    "do not report repeated operations with operands that have effects": ("C26", "lst[f(0)] + lst[f(0)] was to become a multiplication"),
    "do not take operands that have effects for equal": ("C26", "f() / f() was called redundant arithmetic"),
    "suggest augmented assignments only where they have the same effect": ("C26", "x = y = x + 1 was to become x += 1; o.v = f() + o.v changed the order of evaluation; x = x + (w := 3) lost its brackets"),
    "bracket the operand of is where the suggestion negates it": ("C26", "(a and b) is False was to become not a and b"),
    "bracket and quote the suggestions to use ord": ("C26", "ord(x) - 96 was to become ord(x) - ord('a') - 1; 39 became ord(\'\'\')"),
    "quote the suggested letters": ("C26", "the apostrophe and the backslash were not quoted in suggested comparisons"),
    "suggest letters only for numbers that are compared with a call of ord": ("C26", "97 <= n < ord('z') was to become 'a' <= n"),
    "do not compute the range values of what is not an integer": ("C26", "x in range(y, y + 1.5) ended in TypeError"),
    "do not suggest evaluating an expression with effects other than once": ("C26", "int(input()) in range(3, n) was to become two calls of input"),
    "bracket the bounds in suggested comparisons": ("C26", "x in range(y > 2, n) and x in range(y or 3) lost the meaning of their bounds"),
    "do not take a condition that has effects for the negation of another": ("C21", "if read() > 0: ... elif read() <= 0: was to become else, and the else branch called unreachable"),
    "suggest tighter boundaries only where the first iteration does not end the loop": ("C24", "for i in range(a, b): if i == a: break ... was to run without its first iteration"),
    "suggest a for loop only if evaluating its bound once is the same": ("C24", "while i < int(input()): i += 1 was to become a for loop"),
    "suggest direct iteration only if the index is not used after the loop": ("C24", "for i in range(len(lst)): ... lst[i] ...; return i lost its index"),
    "do not take subtracting a variable from a number for a decrement": ("C24", "while i > 1: i = 1 - i was to become a for loop"),
    "suggest tighter boundaries only where the iteration that does nothing is the last": ("C24", "with steps other than 1, with bounds changed in the loop, or with for-else and break, stop - step was taken for the last value"),
    "keep definitions from before a for loop that may make no iterations": ("C31", "after for i in range(n): ..., what i was before was not among the definitions of i"),
    "notice that loops and deletions modify what they subscript": ("C31", "for lst[i] in other and del lst[i] were no modifications of lst"),
    "do not suggest iterating a structure whose subscript changes in the loop": ("C24", "for i in range(len(mat[k])): ... k = 3 ... mat[k][i] was to iterate over mat[k]"),
    "do not suggest a loop condition that does not always end the loop": ("C24", "while True: if c: ... continue ... break was to end by c"),
    "notice that a loop with else need not change its control variable": ("C24", "while i < n: if j: i += 1 with an else branch was to become a for loop"),
    "tell leaving the loop from leaving an inner one when an iterated structure is modified": ("C24", "a modification before the break of an inner loop was ignored"),
    "take an assignment of an attribute for an event of that attribute": ("C24", "for i in range(len(o.items)): o.items = ...; o.items[i] was to iterate over o.items"),
    "compare the variables of an index alone, not of its whole statement": ("C24", "mat[k][i] = k was not an assignment into mat[k], so that use-foreach was suggested over a loop assigning into it"),
    "keep a variable in its scope where it may be deleted": ("C25", "for i in ...: i += 1; if k: del i; then print(i) was no use of i, so that changing i was said to have no effect"),
    "take a method passed to a function for no call of that method": ("C25", "f(lst.append) was reported as modifying the iterated lst"),
    "do not take a structure assigned in a loop for the iterated one": ("C25", "for e in lst: for lst in mat: lst.append(1) was reported as modifying the iterated list"),
    "lead the control flow through exception handlers and finally branches": ("C25", "handlers were unreachable after a try body ending in a jump or when they began with a while, so that loops in them were said to make one iteration; finally: continue was passed over"),
    "keep the line ends version_checker.py had": ("C16", "no behaviour: a previous fix had changed the line ends of the whole file"),
}
