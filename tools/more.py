prop("C13", "Keys are fetched from where asked, and the right key is shown",
 "A key lookup asks exactly the configured server (protocol, host, port) for exactly the given search text, GitHub keys are asked for under the given user name, and the answer is handed on unchanged. A GitHub key is chosen by its ID regardless of letter case and an 0x prefix, from however many pages the user's keys fill; no such key, a key without data, an unreadable answer or a failed request is an error, and only a key that is not there is reported as missing; every answer received from GitHub is closed. The hkp, github and fetch commands pass their options on, make exactly one such lookup, print what the library shows for the answer (with --raw the answer itself) and fail without output otherwise; a wrong command line makes no request.",
 ["inputs", "configurations", "histories"], "for all search texts, ports, IDs and user names within the bounds, all numbers of keys around the page size, every failing page, every combination of the commands' options",
 "The tests cannot reach a key server and fetch one answer from a fake; special characters in the search text, later pages, entries without data and failures in between are not tried.",
 ["hkp/hkp.go", "github/github.go", "github/structs.go", "facade/hkp.go", "facade/github.go", "facade/fetch.go"],
 [m("URL of the request", "hkp/hkp.go"), m("paging and choice of the key", "github/github.go"), m("commands", "facade/hkp.go")], ["requested URLs, returned data, error, output and exit code"],
 note="; the network is a stand-in that answers with the bounded contents")

prop("C14", "The command line does what the library does, and its exit code tells",
 "For any set of options, in short and long form, gpgpdump prints on standard output exactly the text or JSON form that the library gives for the input and these options, whether it is read from standard input or a file, and exits with 0. When the input cannot be read or parsed, the file cannot be opened, the command line is wrong or the output cannot be written, it prints nothing there, writes a message to standard error and exits with another code (with --debug errors go to standard output instead).",
 ["inputs", "configurations"], "for all sets of the eight output options, each form of each option, JSON and text with all indents tried, complete and truncated input",
 "Tests run the command with a few options; which option reaches which switch, alone and together, is not covered.",
 ["facade/facade.go", "facade/debug.go", "main.go", "parse/context/context.go", "parse/context/options.go"],
 [m("options to context", "facade/facade.go"), m("choice of the output form", "facade/facade.go"), m("exit code", "facade/facade.go")], ["standard output, standard error, exit code"])

prop("C21", "An error tells its cause, and absent values are no trap",
 "The cause of a failure is found in the returned error with errors.Is: the input's own error when the input fails (with the armor option, or in binary data otherwise well-formed), ErrArmorText when armor is demanded and there is none, but not when a packet in the armor is at fault, ErrInvalidWhence and ErrInvalidOffset, each for its own reason, when a seek is refused, the client's own error when a request fails (and ErrInvalidRequest for key servers and the GitHub API), ErrNoKey when the key is not there. A nil reader gives ErrNullPointer, and so do nil packets; a nil parser, result, item or context behaves as an empty one in its own methods. None of these panics.",
 ["inputs", "fault_sequences"], "for every seek argument, every point at which the input fails with or without data, every failing page, all octets of short input without armor",
 "Tests look at few errors, and only at whether there is one; which error a caller finds for a failure at any point is not covered.",
 ["ecode/ecode.go", "parse/parser.go", "parse/parse.go", "parse/tags/packets.go", "parse/reader/reader.go", "armtext/armtext.go", "hkp/hkp.go", "github/github.go", "parse/result/result.go", "parse/context/context.go"],
 [m("wrapping of errors", "parse/parser.go"), m("no boundary", "armtext/armtext.go"), m("failed requests", "github/github.go")], ["returned errors"])

prop("C22", "An option is what it was set to, by code or by name",
 "An option of a context reads as it was last set, whether by its code or by its name in any letter case, at creation or later; options never set, and codes and names that are not assigned, are off and change nothing. The debug option turns on every kind of dump (certificates, integers, literal data, markers, private packets) but neither demands armor nor selects UTC. Names and codes are each other's inverse, a context lists every option with its effective value, contexts do not affect each other, and the mode of encryption a context remembers is the one last set.",
 ["inputs", "configurations", "histories"], "for every sequence of settings up to the bound with any 64-bit code, all names of up to 8 ASCII characters, all 512 combinations of options",
 "Tests set options one at a time; sequences of settings, unassigned codes and spellings of names are not covered.",
 ["parse/context/context.go", "parse/context/options.go", "parse/context/symalgmode.go"],
 [m("setting and reading", "parse/context/context.go"), m("names of options", "parse/context/options.go"), m("mode of encryption", "parse/context/symalgmode.go")], ["values read from the context"])
