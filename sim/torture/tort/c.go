//go:build never

package tort

func broken() { undefined }
