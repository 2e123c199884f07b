//go:build go1.22

package cfrpki

import (
	"context"
	"sync"
	"testing"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifsim"
	"github.com/cloudflare/cfrpki/verifsim/harness"
	log "github.com/sirupsen/logrus"
	grpc "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type simClient struct {
	RPKIAPIClient
	s *harness.APIServer
}

func (c *simClient) GetResource(ctx context.Context, in *ResourceQuery, opts ...grpc.CallOption) (*ResourceData, error) {
	d, err := c.s.Resource(ctx, in.Path)
	if err != nil {
		return nil, err
	}
	return &ResourceData{Path: in.Path, Data: d}, nil
}

func (c *simClient) GetRepository(ctx context.Context, in *ResourceQuery, opts ...grpc.CallOption) (RPKIAPI_GetRepositoryClient, error) {
	st, err := c.s.List(ctx, in.Path)
	if err != nil {
		return nil, err
	}
	return &simStream{st: st}, nil
}

type simStream struct {
	grpc.ClientStream
	st *harness.APIStream
}

func (s *simStream) Recv() (*ResourceData, error) {
	p, d, err := s.st.Next()
	if err != nil {
		return nil, err
	}
	return &ResourceData{Path: p, Data: d}, nil
}

func simMain() {
	s := harness.API()
	s.Status = func(code uint32, msg string) error { return status.Error(codes.Code(code), msg) }
	src := &APIFetch{Client: &simClient{s: s}, Ctx: s.Ctx}
	one := func(tal string) {
		v := pki.NewValidator()
		v.Time = s.Time
		v.DecoderConfig.ValidateStrict = true
		sm := pki.NewSimpleManager()
		sm.Validator = v
		sm.FileSeeker = src
		sm.ReportErrors = true
		sm.StrictManifests = s.Strict
		if s.Log {
			sm.Log = log.StandardLogger()
		}
		done := make(chan bool)
		verifsim.GoCall(func() {
			for err := range sm.Errors {
				s.Error(err)
			}
			close(done)
		})
		sm.AddInitial([]*pki.PKIFile{{Path: tal, Type: pki.TYPE_TAL}})
		sm.Explore(s.Listing, false)
		sm.Close()
		<-done
		verifsim.Enter()
		var rows []harness.APIRow
		for _, res := range v.ValidROA {
			d := res.Resource.(*librpki.RPKIROA)
			for _, e := range d.Valids {
				rows = append(rows, harness.APIRow{ASN: uint64(d.ASN), Prefix: e.IPNet.String(), Max: e.MaxLength})
			}
		}
		s.Result(rows)
	}
	if s.Parallel {
		var wg sync.WaitGroup
		for _, t := range s.TALs {
			wg.Add(1)
			verifsim.GoCall(func() { defer wg.Done(); one(t) })
		}
		wg.Wait()
		verifsim.Enter()
	} else {
		for _, t := range s.TALs {
			one(t)
		}
	}
	s.End()
}

func TestVerifSim(t *testing.T) { harness.Main(t, "api", simMain) }
