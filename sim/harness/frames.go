package main

// Wire format, written down here independently of the library.

const (
	ACK = 0x06
	NAK = 0x15
	CAN = 0x18
)

func checksum(b []byte) byte {
	c := byte(0xff)
	for _, x := range b {
		c ^= x
	}
	return c
}

// frame builds SOF len body checksum.
func frame(body ...byte) []byte {
	f := []byte{byte(len(body) + 1)}
	f = append(f, body...)
	f = append(f, checksum(f))
	return append([]byte{0x01}, f...)
}

// report wraps a node's command into an application command frame.
func report(node int, cmd ...byte) []byte {
	return frame(append([]byte{0x00, 0x04, 0x00, byte(node), byte(len(cmd))}, cmd...)...)
}

func rSwitchBinary(node int, on bool) []byte {
	v := byte(0)
	if on {
		v = 0xff
	}
	return report(node, 0x25, 0x03, v)
}
func rLevel(node int, v byte) []byte { return report(node, 0x26, 0x03, v) }

// sensor readings: type, scale -> key in StateFloat
type sensorKind struct {
	typ, scale byte
	key        string
}

var sensorKinds = []sensorKind{
	{1, 0, "temperature_c"}, {1, 1, "temperature_f"}, {4, 0, "power_w"}, {3, 1, "luminance_lux"}, {5, 0, "relativehumidity_%"}, {15, 0, "voltage_v"},
}

// moreSensorKinds are used where any kind of reading will do.
var moreSensorKinds = append([]sensorKind{
	{2, 0, "general_%"}, {3, 0, "luminance_%"}, {4, 1, "power_btu/h"}, {6, 0, "velocity_m/s"}, {6, 1, "velocity_mph"}, {8, 0, "atmosphericpressure_kpa"},
	{8, 1, "atmosphericpressure_inhg"}, {9, 0, "barometricpressure_kpa"}, {9, 1, "barometricpressure_inhg"}, {10, 0, "solarradiation_w/m2"},
	{11, 0, "dewpoint_c"}, {11, 1, "dewpoint_f"}, {12, 0, "rainrate_mm/h"}, {12, 1, "rainrate_in/h"}, {13, 0, "tidelevel_m"}, {13, 1, "tidelevel_ft"},
	{14, 0, "weight_kg"}, {14, 1, "weight_lb"}, {15, 1, "voltage_mv"}, {16, 0, "current_a"}, {16, 1, "current_ma"}, {17, 0, "co2_ppm"},
	{18, 0, "airflow_m3/h"}, {18, 1, "airflow_cfm"}, {20, 0, "distance_m"}, {20, 1, "distance_cm"}, {20, 2, "distance_ft"}, {23, 0, "watertemperature_c"},
	{23, 1, "watertemperature_f"}, {24, 0, "soiltemperature_c"}, {24, 1, "soiltemperature_f"}, {30, 0, "loudness_db"}, {30, 1, "loudness_dba"}, {31, 0, "moisture_%"},
	{7, 0, "direction_"}, {19, 0, "tankcapacity_l"}, {19, 1, "tankcapacity_cbm"}, {19, 2, "tankcapacity_gal"}, {21, 0, "angleposition_%"}, {21, 1, "angleposition_deg n"},
	{21, 2, "angleposition_deg s"}, {22, 0, "rotation_rpm"}, {22, 1, "rotation_hz"}, {25, 0, "seismicintensity_mercalli"}, {25, 1, "seismicintensity_eu macroseismic"},
	{25, 2, "seismicintensity_liedu"}, {25, 3, "seismicintensity_shindo"}, {26, 0, "seismicmagnitude_local"}, {26, 1, "seismicmagnitude_moment"},
	{26, 2, "seismicmagnitude_surface wave"}, {26, 3, "seismicmagnitude_body wave"}, {27, 0, "ultraviolet_"}, {28, 0, "electricalresistivity_ohm"},
	{29, 0, "electricalconductivity_siemens/m"}, {31, 1, "moisture_content"}, {31, 2, "moisture_k ohm"}, {31, 3, "moisture_water activity"},
}, sensorKinds...)

// rReading is a reading of any kind, size (1, 2 or 4 bytes) and precision.
func rReading(node int, s sensorKind, size, precision int, value int32, more ...byte) []byte {
	cmd := []byte{0x31, 0x05, s.typ, byte(precision)<<5 | s.scale<<3 | byte(size)}
	for i := size - 1; i >= 0; i-- {
		cmd = append(cmd, byte(value>>uint(8*i)))
	}
	return report(node, append(cmd, more...)...)
}

// readingOf is the meaning of a reading.
func readingOf(cmd []byte) (key string, value float64, ok bool) {
	if len(cmd) < 4 || cmd[0] != 0x31 || cmd[1] != 0x05 {
		return
	}
	size, precision := int(cmd[3]&7), int(cmd[3]>>5)
	if len(cmd) < 4+size || size != 1 && size != 2 && size != 4 {
		return
	}
	v := int64(int8(cmd[4]))
	for _, b := range cmd[5 : 4+size] {
		v = v<<8 | int64(b)
	}
	value = float64(v)
	for ; precision > 0; precision-- {
		value /= 10
	}
	for _, k := range moreSensorKinds {
		if k.typ == cmd[2] && k.scale == cmd[3]>>3&3 {
			return k.key, value, true
		}
	}
	return
}

// eqFloat allows for the rounding of another order of operations.
func eqFloat(a, b float64) bool {
	d := a - b
	return a == b || d < 1e-9 && d > -1e-9 || d < 1e-12*a && d > -1e-12*a || d < -1e-12*a && d > 1e-12*a
}

// rSensor is a 4 byte wide reading with precision 1 (tenths).
func rSensor(node int, k int, tenths int) []byte {
	s := sensorKinds[k%len(sensorKinds)]
	return report(node, 0x31, 0x05, s.typ, 1<<5|s.scale<<3|4, byte(tenths>>24), byte(tenths>>16), byte(tenths>>8), byte(tenths))
}
func rSensorKey(k int) string { return sensorKinds[k%len(sensorKinds)].key }

func rAlarm(node int, typ, status byte) []byte {
	return report(node, 0x71, 0x05, typ, 0x01, 0x00, status, 0x02, 0x03)
}

// rAlarmMore is an alarm of a newer version, with parameters of the event.
func rAlarmMore(node int, typ, status byte, n int) []byte {
	cmd := []byte{0x71, 0x05, typ, 0x01, 0x00, status, 0x02, 0x03}
	for k := 0; k < n; k++ {
		cmd = append(cmd, byte(n-1-k))
	}
	return report(node, cmd...)
}
func rWakeUp(node int) []byte { return report(node, 0x84, 0x07) }
func rManufacturer(n NodeSpec) []byte {
	return report(n.ID, 0x72, 0x05, byte(n.Man>>8), byte(n.Man), byte(n.Typ>>8), byte(n.Typ), byte(n.Prod>>8), byte(n.Prod))
}
func rEndpoints(n NodeSpec) []byte { return report(n.ID, 0x60, 0x08, 0x40, byte(n.Endpoints)) }
func rSensorSupported(n NodeSpec) []byte {
	return report(n.ID, 0x31, 0x02, 0x01)
}
func fProtocolInfo(n NodeSpec) []byte {
	caps := byte(0x53)
	if !n.Battery {
		caps |= 0x80
	}
	return frame(0x01, 0x41, caps, 0x9c, 0x00, n.Basic, n.Generic, n.Specific)
}
func fSendDataResp() []byte { return frame(0x01, 0x13, 0x01) }

// fDiscovery lists the active nodes (1 is the controller itself).
func fDiscovery(ids []int) []byte {
	mask := make([]byte, 29)
	mask[0] |= 1
	for _, id := range ids {
		if id >= 1 && id <= 232 {
			mask[(id-1)/8] |= 1 << uint((id-1)%8)
		}
	}
	b := []byte{0x01, 0x02, 0x05, 0x00, 29}
	b = append(b, mask...)
	return frame(append(b, 0x05, 0x00)...)
}
