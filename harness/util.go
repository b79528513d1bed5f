package main

import "sort"

func sortedKeys(m map[string][]string) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedPaths(m map[string][]string) [][]string {
	r := make([][]string, 0, len(m))
	for _, k := range sortedKeys(m) {
		r = append(r, m[k])
	}
	return r
}
