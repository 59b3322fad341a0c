package fullmon

import "aaa.vmon/mon"

// All are the monitors of this package.
var All = map[string]*mon.Monitor{"C08": C08, "C10": C10, "C11": C11, "C12": C12, "C13": C13, "C14": C14, "C15": C15, "C16": C16, "C17": C17, "C18": C18, "C19": C19, "C22": C22, "C23": C23, "C24": C24, "C25": C25, "C26": C26, "C27": C27, "C28": C28, "C29": C29}
