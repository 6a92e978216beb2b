package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func paramSyms(fn *ssa.Function) []*Term {
	var out []*Term
	for _, p := range fn.Params {
		out = append(out, sym(p.Name(), p.Type()))
	}
	return out
}

// worldOps classifies the operations of the World interface.
func worldKind(name string) byte {
	switch strings.TrimPrefix(name, "World.") {
	case "ItemCreate", "ItemDelete", "ItemSet", "RelCreate", "RelDelete", "RelSet", "Nest", "Free":
		return 'm'
	case "SetVersion", "SetId", "SetName", "SetExpanded":
		return 'w'
	case "ItemFetch", "ItemList", "RelFetch", "RelTo", "RelFrom", "RelList", "In", "Parent", "Components", "ItemParent", "ItemComponents":
		return 'q'
	case "Err", "Item", "Rel":
		return 's'
	case "Version", "Id", "Name", "Expanded", "String":
		return 'g'
	}
	return 0
}

func isRole(role string) func(string) bool {
	return func(name string) bool { return strings.HasPrefix(name, role+".") }
}

// appPolicy: the operations of a World are uninterpreted.
func appPolicy(p *Prog) Policy {
	return Policy{
		opaque: func(name string, fn *ssa.Function) bool {
			if strings.HasPrefix(name, "World.") && worldKind(name) != 0 {
				return true
			}
			return opaqueAlways(name)
		},
		kind: func(name string) byte {
			if strings.HasPrefix(name, "World.") {
				return worldKind(name)
			}
			return kindAlways(name)
		},
		perRecv: func(role string) bool { return role == "World" },
		returnsRecv: func(name string) bool {
			k := worldKind(name)
			return strings.HasPrefix(name, "World.") && (k == 'm' || k == 'w')
		},
	}
}

func opaqueAlways(name string) bool {
	switch {
	case strings.HasPrefix(name, "TopolithError."), name == "topoerrors.New", name == "topoerrors.Join":
		return true
	case strings.HasPrefix(name, "grammar."), strings.HasPrefix(name, "Parser."):
		return true
	case name == "world.ItemTypeFromString", name == "world.StringFromItemType":
		return true
	}
	return false
}

func kindAlways(name string) byte {
	switch {
	case strings.HasPrefix(name, "TopolithError."), name == "topoerrors.New", name == "topoerrors.Join":
		return 'p'
	case name == "world.ItemTypeFromString", name == "world.StringFromItemType":
		return 'p'
	}
	return 0
}

func treeKind(name string) byte {
	switch strings.TrimPrefix(name, "Tree.") {
	case "AddOrMove", "Update", "Delete":
		return 'm'
	case "Has", "Find", "GetDescendantIds", "Components", "Parent", "Root", "Empty", "Item":
		return 'g'
	case "String":
		return 'g'
	}
	return 0
}

// worldPolicy: the operations of a Tree are uninterpreted.
func worldPolicy(p *Prog) Policy {
	return Policy{
		opaque: func(name string, fn *ssa.Function) bool {
			if strings.HasPrefix(name, "Tree.") && treeKind(name) != 0 {
				return true
			}
			return opaqueAlways(name)
		},
		kind: func(name string) byte {
			if strings.HasPrefix(name, "Tree.") {
				return treeKind(name)
			}
			return kindAlways(name)
		},
	}
}

// treePolicy: the operations of one tree node; those of other nodes are uninterpreted.
func treePolicy(p *Prog) Policy {
	return Policy{
		opaque: func(name string, fn *ssa.Function) bool { return opaqueAlways(name) },
		kind: func(name string) byte {
			if strings.HasPrefix(name, "Tree.") {
				return treeKind(name)
			}
			return kindAlways(name)
		},
	}
}
