package rt

// Clocks: simulated time is clockNS. The machine's wall clock may be wrong and may
// jump; a process reads it once when it starts and then counts monotonic time, the
// file system stamps files with the machine's wall clock of the moment.

const defaultEpoch = 1700000000 // seconds

var (
	epochNS  int64 // true time at the start of a run
	wallOff  int64
	procBase [256]int64
)

func clockReset() {
	wallOff = 0
	SetEpoch(defaultEpoch)
	SetZone("", 0)
	for i := range procBase {
		procBase[i] = 0
	}
}

// TrueNS is the true (server) time.
func TrueNS() int64 { return epochNS + clockNS }

// LocalNS is the local machine's wall clock.
func LocalNS() int64 { return epochNS + clockNS + wallOff }

// SetEpoch sets the true time, in seconds, at which the run began.
func SetEpoch(s int64) { epochNS = s * int64(1e9) }

// JumpClock sets the local clock's error against true time.
func JumpClock(off int64) { wallOff = off }

// StartProc notes that a process starts now.
func StartProc(p int) {
	procBase[p&255] = wallOff
	if cur == nil {
		resetGlobals()
	}
}

// WallNS is the clock process p sees.
func WallNS(p int) int64 { return epochNS + clockNS + procBase[p&255] }

// The time zone of the machine.
var (
	zoneName string
	zoneSet  func(name string, offset int)
)

// OnZone registers what sets the time zone.
func OnZone(f func(name string, offset int)) { zoneSet = f; f("", 0) }

// SetZone sets the time zone of the machine, east of Greenwich in seconds; an empty name means UTC.
func SetZone(name string, offset int) {
	if zoneSet != nil && zoneName != name && !RaceBuild {
		zoneName = name
		zoneSet(name, offset)
	}
}
