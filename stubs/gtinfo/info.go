// Package info is a type-level stand-in for github.com/go-vgo/gt/info, whose
// module cannot be resolved offline (go.sum mismatch, see /opt/vp/BUILD.json).
// It is only used to type-check the packages that import it.
package info

func MemPercent() (string, error)                                   { return "", nil }
func MemUsed() (uint64, error)                                      { return 0, nil }
func MemTotal() (uint64, error)                                     { return 0, nil }
func MemFree() (uint64, error)                                      { return 0, nil }
func DiskPercent() (string, error)                                  { return "", nil }
func DiskUsed() (uint64, error)                                     { return 0, nil }
func DiskTotal() (uint64, error)                                    { return 0, nil }
func DiskFree() (uint64, error)                                     { return 0, nil }
func CPUInfo(args ...int) (string, error)                           { return "", nil }
func CPUPercent() ([]float64, error)                                { return nil, nil }
func Uptime() (uint64, error)                                       { return 0, nil }
func PlatformInfo() (platform, family, osVersion string, err error) { return }
func Platform() (string, error)                                     { return "", nil }
func KernelVer() (string, error)                                    { return "", nil }
