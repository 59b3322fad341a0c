package coremon

import "aaa.vmon/mon"

// All are the monitors of this package.
var All = map[string]*mon.Monitor{"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C05": C05, "C06": C06, "C07": C07, "C09": C09}
