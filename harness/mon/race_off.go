//go:build !race

package mon

const raceBuild = false
