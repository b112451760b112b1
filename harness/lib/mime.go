package lib

import "strings"

// Mimes are the registered media types of file extensions.
var Mimes = map[string]string{
	".avif": "image/avif", ".css": "text/css", ".gif": "image/gif", ".htm": "text/html", ".html": "text/html",
	".jpeg": "image/jpeg", ".jpg": "image/jpeg", ".js": "text/javascript", ".json": "application/json",
	".mjs": "text/javascript", ".pdf": "application/pdf", ".png": "image/png", ".svg": "image/svg+xml",
	".wasm": "application/wasm", ".webp": "image/webp", ".xml": "text/xml", ".gz": "application/gzip",
	".sql": "application/sql", ".tzif": "application/tzif", ".yaml": "application/yaml",
	".xfdf": "application/xfdf", ".zip": "application/zip", ".zlib": "application/zlib", ".zstd": "application/zstd",
	".ico": "image/vnd.microsoft.icon",
}

// MimeOK tells whether the content type fits the extension; the ones not in the table are arbitrary
// bytes unless recognised in the future.
func MimeOK(ext, contentType string) bool {
	got, params, has := strings.Cut(contentType, ";")
	if has && strings.ToLower(strings.TrimSpace(params)) != "charset=utf-8" {
		return false
	}
	want, known := Mimes[ext]
	if !known {
		return got == "application/octet-stream" || got == "text/plain" && ext == ".txt"
	}
	return got == want
}
